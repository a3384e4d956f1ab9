import numpy as np

BIN = ["union", "intersection", "difference", "xor", "implication", "equivalence"]


def kleene(op, a, b):
    conj, disj = np.minimum, np.maximum
    return {
        "union": lambda: disj(a, b),
        "intersection": lambda: conj(a, b),
        "difference": lambda: conj(a, -b),
        "xor": lambda: disj(conj(a, -b), conj(-a, b)),
        "implication": lambda: disj(-a, b),
        "equivalence": lambda: conj(disj(a, -b), disj(-a, b)),
    }[op]()


def rodrigues(axis, angle):
    """right-handed rotation matrix about an axis of any non-zero length"""
    k = np.asarray(axis, float)
    k = k / np.linalg.norm(k)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(angle) * K + (1 - np.cos(angle)) * K @ K


def euler_xyz(a, b, c):
    """rotation about x by a, then about y by b, then about z by c"""
    return rodrigues((0, 0, 1), c) @ rodrigues((0, 1, 0), b) @ rodrigues((1, 0, 0), a)


def rot2(a):
    return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
