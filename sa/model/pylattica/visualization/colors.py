COLORS = [(32, 178, 170), (0, 255, 127), (47, 79, 79), (30, 144, 255), (138, 43, 226), (186, 85, 211), (199, 21, 133), (255, 20, 147), (250, 235, 215), (160, 82, 45), (244, 164, 96), (176, 196, 222), (205, 92, 92), (255, 215, 0), (85, 107, 47), (0, 128, 0), (143, 188, 143), (255, 140, 0), (255, 69, 0), (250, 128, 114), (128, 0, 0), (255, 255, 0), (0, 255, 0), (255, 255, 255), (128, 128, 0), (0, 0, 128), (34, 139, 34), (221, 160, 221), (210, 105, 30), (188, 143, 143), (112, 128, 144), (240, 255, 240)]
