'''Two tetrahedra {tetra: [4 vertices]} cut by y = 0, and points nearer to the cut of the
first by any measure of the whole (least, greatest and mean distance, either way), though not
by every single vertex or single point.'''
MIXED = {
    1: [
        ([[[0.97, 0.66, 0.25], [1.81, -1.21, 2.13], [-0.63, -0.53, -0.11], [-0.31, -1.13, 1.01]], [[2.08, 1.06, 0.0], [3.44, -1.15, -1.88], [0.8, -1.12, -1.76], [3.6, -0.51, 1.2]]],
         [[1.96, -0.4, 2.48]]),
        ([[[0.3, 0.66, 1.0], [2.26, -1.3, 0.72], [0.3, -0.68, 2.96], [-0.86, -0.75, -0.52]], [[2.3, 1.44, 0.32], [3.62, -1.09, 0.68], [3.66, -1.33, 1.6], [1.1, -0.99, 1.32]]],
         [[0.08, 0.8, -0.6]]),
        ([[[0.55, 1.17, 0.11], [2.47, -1.33, 0.39], [1.23, -1.15, 0.91], [1.51, -1.22, 0.75]], [[2.26, 1.36, 0.6], [2.5, -0.87, 1.88], [2.7, -0.73, 1.12], [2.46, -0.9, -1.16]]],
         [[1.56, -0.04, -0.36]]),
        ([[[0.19, 1.41, 0.62], [-0.37, -0.73, 1.9], [1.91, -0.66, 0.02], [0.39, -1.44, -0.02]], [[2.12, 0.65, 0.36], [4.08, -1.05, -0.56], [2.04, -1.27, -1.04], [1.68, -1.06, 2.28]]],
         [[0.64, -0.14, -0.16]]),
        ([[[0.03, 1.4, 0.72], [1.19, -1.32, -0.84], [-0.41, -1.2, 2.44], [1.35, -0.71, -0.56]], [[1.98, 1.21, 0.17], [0.98, -0.77, 1.21], [2.58, -0.8, 0.13], [0.02, -0.85, -0.87]]],
         [[0.44, -0.56, 1.28]]),
        ([[[0.04, 1.47, 0.42], [0.28, -1.27, -1.34], [-0.88, -0.58, 1.34], [0.8, -1.19, 1.18]], [[1.61, 0.86, 0.39], [0.33, -1.24, 0.47], [2.25, -0.96, 0.99], [2.49, -0.86, 0.59]]],
         [[0.24, 0.04, -0.4]]),
    ],
    2: [
        ([[[0.47, 1.15, 0.08], [1.23, -0.95, -1.28], [0.43, -1.35, 0.2], [0.95, -0.51, 1.52]], [[2.26, 0.63, 0.64], [3.02, -1.42, 0.36], [1.1, -1.16, 1.64], [2.18, -0.92, 1.92]]],
         [[1.68, -0.58, 1.84], [0.76, -0.22, -0.76]]),
        ([[[0.17, 0.52, 0.85], [0.97, -0.56, 1.17], [-0.99, -1.1, 2.65], [-1.43, -1.08, 1.53]], [[2.4, 0.93, 0.47], [1.2, -1.21, 0.15], [3.56, -0.66, -0.93], [1.4, -1.25, -0.73]]],
         [[0.96, 0.54, -0.92], [-0.08, 0.14, 2.6]]),
        ([[[0.54, 0.83, 0.92], [1.38, -1.43, 0.8], [0.7, -0.91, 2.0], [2.1, -0.73, -0.24]], [[2.29, 0.96, 0.58], [1.65, -1.5, 0.78], [1.45, -1.21, -0.94], [3.01, -0.75, 2.54]]],
         [[1.88, -0.86, 1.52], [0.12, -0.28, 0.8]]),
        ([[[0.52, 1.2, 0.14], [0.36, -1.36, -0.26], [-1.24, -0.8, 0.78], [-0.64, -0.56, -1.5]], [[1.56, 0.99, 0.35], [1.72, -1.14, 0.23], [0.52, -1.47, -0.13], [1.32, -1.05, 1.19]]],
         [[1.28, 0.42, -0.6], [-0.2, -0.48, -0.44]]),
        ([[[0.01, 1.06, 0.28], [1.73, -1.44, 1.44], [0.53, -0.62, 1.16], [-1.87, -0.59, -1.12]], [[2.41, 1.18, 0.73], [3.81, -1.05, -1.07], [3.57, -0.99, -0.99], [0.85, -0.66, 2.13]]],
         [[1.28, 0.96, 1.8], [0.12, 0.52, 0.4]]),
        ([[[0.14, 0.92, 0.3], [-1.3, -0.99, 0.46], [1.58, -1.07, 0.82], [-0.42, -0.74, 0.86]], [[1.58, 0.94, 0.64], [-0.14, -0.96, -0.84], [0.86, -0.77, 0.12], [0.18, -1.42, 1.68]]],
         [[1.64, 0.64, 1.88], [-0.96, 0.02, 0.92]]),
    ],
    3: [
        ([[[0.39, 0.58, 0.01], [-0.17, -0.77, -0.95], [0.95, -0.71, 0.37], [1.75, -0.73, 0.81]], [[2.45, 1.18, 0.75], [1.81, -0.88, 2.31], [1.17, -1.06, 2.03], [1.29, -1.05, 0.39]]],
         [[0.68, -0.52, 2.0], [0.88, -0.02, 0.4], [-0.96, -0.94, 2.08]]),
        ([[[1.0, 1.24, 0.77], [-0.96, -0.81, 1.17], [0.6, -0.56, -0.47], [-0.36, -1.11, 1.05]], [[2.33, 0.77, 0.8], [1.29, -0.76, 1.76], [0.57, -1.01, 0.16], [2.93, -0.85, -0.96]]],
         [[1.2, 0.58, 0.64], [1.4, 0.02, 1.28], [-0.2, -0.34, 0.92]]),
        ([[[0.51, 0.56, 0.46], [-1.13, -0.96, -1.42], [-1.29, -1.07, 1.3], [0.63, -0.69, -1.02]], [[2.14, 1.11, 1.0], [3.7, -1.27, 0.8], [0.46, -1.11, 2.8], [3.66, -1.4, 0.44]]],
         [[2.16, 0.44, 2.36], [-0.04, 0.98, -0.84], [-0.72, -0.58, 0.2]]),
        ([[[0.02, 0.91, 0.9], [-1.1, -0.64, -0.94], [1.42, -1.49, 2.22], [-0.78, -1.07, -0.74]], [[1.74, 1.42, 0.94], [3.46, -1.21, -1.02], [3.54, -1.47, -0.82], [1.18, -1.44, 2.54]]],
         [[2.6, -0.3, 1.96], [-0.92, 0.5, 0.52], [0.0, 0.24, 2.92]]),
        ([[[0.4, 1.01, 0.75], [2.16, -0.91, -0.29], [2.2, -1.3, 1.15], [-1.4, -0.77, 2.43]], [[1.65, 1.23, 0.21], [2.37, -0.9, 0.21], [2.57, -0.84, 2.21], [2.81, -0.65, -1.43]]],
         [[2.84, -0.38, 1.24], [-0.68, 0.44, 0.0], [0.88, 0.4, 1.16]]),
        ([[[0.85, 0.77, 0.88], [0.81, -0.96, 2.64], [1.61, -0.94, -0.08], [-0.15, -1.31, 2.32]], [[1.98, 0.6, 0.19], [0.58, -0.8, -1.05], [3.18, -1.48, 1.07], [1.78, -0.63, -1.25]]],
         [[2.52, 0.28, -0.4], [0.2, 0.46, 1.08], [0.72, 0.14, 1.2]]),
    ],
    5: [
        ([[[0.19, 1.06, 0.9], [0.43, -0.87, 0.54], [0.15, -1.31, 2.1], [2.11, -0.59, 1.62]], [[2.15, 0.65, 0.39], [1.51, -0.51, -0.05], [0.87, -1.38, 0.59], [2.83, -1.41, 1.35]]],
         [[2.72, 0.78, 0.76], [0.48, -0.24, 0.2], [0.2, 0.02, 0.28], [2.32, 0.58, 1.36], [-0.2, 0.62, 0.12]]),
        ([[[0.44, 1.34, 0.67], [0.12, -0.6, -0.45], [-0.08, -0.79, 2.39], [-0.52, -1.05, -0.65]], [[2.33, 1.38, 0.21], [1.85, -1.14, 1.97], [2.25, -0.8, -0.99], [1.41, -1.32, 1.29]]],
         [[1.2, -0.54, 1.44], [1.0, 0.18, 2.96], [0.12, -0.5, 0.04], [-0.72, 0.64, -0.4], [1.84, -0.36, 1.64]]),
        ([[[0.12, 0.57, 0.16], [1.52, -1.36, 2.0], [-1.52, -1.06, 0.24], [1.48, -1.36, -1.52]], [[2.21, 0.82, 0.03], [3.29, -1.37, 1.87], [0.97, -0.85, 0.75], [1.45, -0.67, 0.83]]],
         [[1.84, 0.08, 1.16], [0.04, -0.32, -0.8], [-0.16, -0.58, 0.64], [-0.32, -0.62, 1.12], [1.04, 0.28, 0.88]]),
        ([[[0.45, 1.1, 0.32], [0.13, -1.04, 0.4], [-1.39, -0.66, 1.04], [1.37, -1.05, 1.96]], [[1.62, 1.01, 0.83], [0.82, -1.1, -0.17], [3.14, -0.63, 2.11], [2.62, -1.28, 1.15]]],
         [[1.72, -0.66, 0.48], [-0.8, -0.08, 0.24], [0.04, -0.3, -0.84], [-0.84, -0.6, 0.2], [-0.12, -0.04, 0.84]]),
        ([[[0.28, 0.63, 0.12], [-0.88, -1.12, 0.4], [-1.32, -0.74, -0.44], [0.6, -0.59, 1.72]], [[2.08, 1.31, 0.91], [3.2, -0.77, 1.63], [2.72, -1.5, 0.71], [1.12, -0.85, 1.75]]],
         [[1.32, 0.8, 2.32], [0.76, -0.94, 0.12], [1.24, 0.5, -0.6], [-0.92, 0.14, -0.84], [1.8, -0.3, 0.0]]),
        ([[[0.49, 0.91, 0.84], [0.01, -1.45, 0.24], [-0.51, -0.77, -0.36], [1.97, -1.46, 1.96]], [[1.73, 1.31, 0.72], [3.01, -0.83, 0.72], [-0.27, -1.37, 1.76], [0.13, -1.19, 2.08]]],
         [[2.52, -0.56, 0.6], [1.2, -0.04, 1.8], [-0.84, 0.58, 1.72], [-0.72, 0.38, -0.96], [0.2, 0.14, 0.56]]),
    ],
}
