"""C05: room containment: every checkpoint of every shape, inflated by its radius, stays inside the room;
room outlines (canvas limits, bounding hyperplanes) describe the room."""
from ..behave import *
from .c04 import S, vehicle_side, three


def run(ctx):
    ctx.rules.append('C05: the specified containment inequalities (checkpoint plus radius within the room limits / bounding planes) are imposed.')
    vehicle_side(ctx, 'room2d', 'define_collision_constraints_2d', 'vehicle_2d_room', [], 'vehicle without heading, room')
    vehicle_side(ctx, 'room2d.heading', 'define_collision_constraints_2d', 'vehicle_2d_room', [S('tg_ha'), S('offset')], 'vehicle with heading, room')
    # in space: first with the radius (complete containment), else at least the checkpoints
    sub = ctx.shadow()
    vehicle_side(sub, 'room3d', 'define_collision_constraints_3d', 'room_3d', [], 'vehicle in space, room', three)
    if sub.clean():
        ctx.adopt(sub)
    else:
        vehicle_side(ctx, 'room3d.points', 'define_collision_constraints_3d', 'room_3d_points', [], 'checkpoints of a vehicle in space, room', three)
        if sub.violated():
            ctx.bad('room3d.radius', 'the radius of the vehicle is not part of the room constraints in space: ' + sub.violated()[0].msg,
                    sub.violated()[0].where)
    return 3
