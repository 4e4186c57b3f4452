# per-property build/run configuration (see run.py)
import os
CONF = {
    "C22": {"quick_scale": 10}, "C14": {"quick_scale": 4}, "C18": {"quick_scale": 4}, "C19": {"quick_scale": 8},
    "C20": {"retry": 40, "flags": ["-std=gnu++17", "-fopenmp"], "libs": ["-fopenmp", "-pthread"], "inc": ["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks", "C20", "mpi")], "env": {"OMP_WAIT_POLICY": "passive"}},
    "C15": {"quick_scale": 4},
    "C04": {"quick_scale": 3},
    "C12": {"quick_scale": 5, "inc": ["-I/usr/include/eigen3", "-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks", "C12", "mkl")], "libs": ["-lgsl", "-lgslcblas"]},
    "C13": {"tu_flags": {"shapes3.cpp": ["-fno-sanitize=undefined"]}, "inc": ["-I/usr/include/eigen3"], "flags": ["-D_GLIBCXX_DEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], "libs": ["-fsanitize=address,undefined"]},
}
