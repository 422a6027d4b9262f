'''lace.topology: each quad becomes two triangles, fanned from its first corner.'''
import numpy as np


def quads_to_tris(quads):
    tris = []
    for q in quads:
        tris.append([q[0], q[1], q[2]])
        tris.append([q[0], q[2], q[3]])
    return np.array(tris, dtype=np.uint32)
