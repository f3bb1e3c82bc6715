"""Stand-in for the cell_lists package (not installed here): cell lists of
points in the plane, and the pairs of points in the same or adjacent cells."""
import numpy as np


def add_to_cells(points, cell_size):
    pts = np.asarray(points, dtype=float).reshape(-1, 2)
    if len(pts) == 0:
        return np.zeros(0, np.int64), np.zeros(1, np.int64), np.zeros(1, np.int64), np.ones(2, np.int64)
    idx = np.floor(pts / cell_size).astype(np.int64)
    lo = idx.min(axis=0)
    shape = idx.max(axis=0) - lo + 1
    flat = (idx[:, 0] - lo[0]) * shape[1] + (idx[:, 1] - lo[1])
    order = np.argsort(flat, kind='stable')
    count = np.bincount(flat, minlength=int(shape[0] * shape[1])).astype(np.int64)
    offset = np.concatenate(([0], np.cumsum(count)[:-1])).astype(np.int64)
    return order.astype(np.int64), count, offset, shape


def neighboring_cells(grid_shape):
    """cell shifts, encoded with the grid: (rows, columns) followed by the pairs"""
    return np.array([int(grid_shape[0]), int(grid_shape[1]), 0, 1, 1, -1, 1, 0, 1, 1], dtype=np.int64)


def iter_nearest_neighbors(cell_indices, neigh_cells, points_indices, cells_count, cells_offset):
    nx, ny = int(neigh_cells[0]), int(neigh_cells[1])
    shifts = [(int(neigh_cells[k]), int(neigh_cells[k + 1])) for k in range(2, len(neigh_cells), 2)]
    members = lambda c: [int(p) for p in points_indices[cells_offset[c]:cells_offset[c] + cells_count[c]]]
    for c in cell_indices:
        c = int(c)
        here = members(c)
        for a in range(len(here)):
            for b in range(a + 1, len(here)):
                yield here[a], here[b]
        x, y = divmod(c, ny)
        for dx, dy in shifts:
            if 0 <= x + dx < nx and 0 <= y + dy < ny:
                for i in here:
                    for j in members((x + dx) * ny + y + dy):
                        yield i, j
