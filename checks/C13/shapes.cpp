#include "shapes.hpp"
SUITE(shapes_multi_array, 4000, 200000, RSH) { if (src.flag()) POLICIES((shapeall<MulA<2>, R>(src))) else POLICIES((shapeall<MulA<3>, R>(src))) }
SUITE(shapes_multi_array_controlled, 2000, 100000, RSH) { POLICIES((shapecall<MulA<2>, R>(src))) }
SUITE(shapes_matrix, 4000, 200000, RSH) { if (src.flag()) POLICIES((shapeall<MatA<bub::row_major>, R>(src))) else POLICIES((shapeall<MatA<bub::column_major>, R>(src))) }
SUITE(shapes_matrix_controlled, 2000, 100000, RSH) { POLICIES((shapecall<MatA<bub::row_major>, R>(src))) }
SUITE(shapes_fusion, 3000, 200000, RSH) { POLICIES((shapeall<FusA, R>(src))) }
