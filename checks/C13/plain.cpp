#include "c13.hpp"
SUITE(sizes_plain, 8000, 400000, R13) { switch (src.raw(8)) { case 0: POLICIES((plain13<g_euler, R>(src))) break; case 1: POLICIES((plain13<g_rk4, R>(src))) break; case 2: POLICIES((plain13<g_rk4c, R>(src))) break; case 3: POLICIES((plain13<g_ck, R>(src))) break; case 4: POLICIES((plain13<g_ckc, R>(src))) break; case 5: POLICIES((plain13<g_dp, R>(src))) break; case 6: POLICIES((plain13<g_f78, R>(src))) break; default: POLICIES((plain13<g_mm, R>(src))) } }
SUITE(sizes_error, 4000, 200000, R13) { switch (src.raw(4)) { case 0: POLICIES((err13<g_ck, R>(src))) break; case 1: POLICIES((err13<g_ckc, R>(src))) break; case 2: POLICIES((err13<g_dp, R>(src))) break; default: POLICIES((err13<g_f78, R>(src))) } }
