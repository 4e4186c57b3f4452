#include "c13.hpp"
SUITE(sizes_extrapolation, 3000, 150000, R13) { switch (src.raw(2)) { case 0: POLICIES((plain13<g_ex4, R>(src))) break; default: POLICIES((plain13<g_ex8, R>(src))) } }
SUITE(sizes_multistep, 6000, 300000, R13) { switch (src.raw(4)) { case 0: POLICIES((plain13<g_ab1, R>(src))) break; case 1: POLICIES((plain13<g_ab4, R>(src))) break; case 2: POLICIES((plain13<g_abm3, R>(src))) break; default: POLICIES((plain13<g_abm5, R>(src))) } }
