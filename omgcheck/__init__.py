"""omgcheck: repository-specific static analysis for omg-tools (no code of /repo is executed)."""
