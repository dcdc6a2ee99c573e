"""Grid of cells and the costs of moving over it."""
import numpy as np


def nearest(point, position, width, height, n):
    """index of the cell the point is in, the closest one for a point outside"""
    cw, ch = width/n[0], height/n[1]
    i = int(round((point[0] - position[0] + width/2 - cw/2)/cw))
    j = int(round((point[1] - position[1] + height/2 - ch/2)/ch))
    i, j = max(0, i), max(0, j)
    if i >= n[0] or j >= n[1]:
        i, j = min(i, n[0] - 1), min(j, n[1] - 1)
    return [i, j]


def waypoint(node, position, width, height, n):
    """centre of a cell"""
    return [position[0] - width/2 + (node[0] + 1/2)*width/n[0], position[1] - height/2 + (node[1] + 1/2)*height/n[1]]


def diagonal(cw, ch):
    return np.sqrt(cw**2 + ch**2)


def manhattan(goal, node, cw, ch):
    return abs(goal[0] - node[0])*cw + abs(goal[1] - node[1])*ch
