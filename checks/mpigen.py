"""Generates a mock MPI implementation and call tables from the installed mpi.h.

The prototypes of mpi.h (not DLB's own call table) tell how many arguments each
function has and which of them are plain ints."""
import os, re, subprocess

EXTRA = ["Type_match_size", "Type_create_struct", "Type_create_resized", "Type_commit", "Type_free", "Get_library_version"]
FSPECIAL = {"Init": (1, 0), "Init_thread": (3, 0), "Finalize": (1, 0)}   # Fortran arguments, lengths


def incdirs():
    return subprocess.run(["mpicc", "--showme:incdirs"], capture_output=True, text=True).stdout.split()


def prototypes():
    for d in incdirs():
        p = os.path.join(d, "mpi.h")
        if os.path.exists(p):
            text = open(p).read()
            break
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    out = {}
    for m in re.finditer(r"\bint\s+MPI_(\w+)\s*\(([^;]*?)\)\s*(?:__\w+[^;]*)?;", text, flags=re.S):
        if m.group(1) in out:
            continue
        ps = [re.sub(r"\s+", " ", x).strip() for x in m.group(2).split(",")]
        if ps == ["void"]:
            ps = []
        out[m.group(1)] = ps
    return out


def kind(p):
    """i: int by value, p: pointer or other word, c: pointer to characters"""
    if re.search(r"\bchar\b", p):
        return "c"
    if "*" in p or "[" in p:
        return "p"
    if re.match(r"(const )?int \w+$", p):
        return "i"
    return "p"


def generate(path, table):
    names = [t[0] for t in table]; cls = dict(table)
    P = prototypes()
    o = ["/* generated by checks/mpigen.py */"]
    rows = []
    o.append("extern int mock_call(int, int, long *, long *); extern void mock_fcall(int, long *);")
    for i, n in enumerate(list(names) + EXTRA):
        if n not in P:
            raise SystemExit("mpi.h has no MPI_" + n)
        ks = "".join(kind(p) for p in P[n])
        k = len(ks)
        args = ", ".join("long a%d" % j for j in range(k)) or "void"
        o.append("long PMPI_%s(%s) { long a[%d] = {%s}, r = 0; mock_call(%d, %d, a, &r); return r; }" % (n, args, k + 1, ", ".join("a%d" % j for j in range(k)), i, k))
        if n in names:
            l = n.lower()
            fa = ", ".join("long a%d" % j for j in range(24))
            o.append("void pmpi_%s(%s) { long a[24] = {%s}; mock_fcall(%d, a); }" % (l, fa, ", ".join("a%d" % j for j in range(24)), i))
            fn, fl = FSPECIAL.get(n, (k + 1, ks.count("c")))
            fs = ["MPI_" + n, "mpi_" + l, "mpi_" + l + "_", "mpi_" + l + "__", "mpi_" + l + "_f08_", "DLB_MPI_%s_enter" % n, "DLB_MPI_%s_leave" % n, "DLB_MPI_%s_F_enter" % n, "DLB_MPI_%s_F_leave" % n]
            o += ["extern void %s(void) __attribute__((weak));" % f for f in fs]
            rows.append('{"%s", "%s", "%s", %d, %d, {%s}}' % (n, ks, cls[n], fn, fl, ", ".join(fs)))
        else:
            rows.append('{"%s", "%s", "", 0, 0, {0}}' % (n, ks))
    o.append("struct row { const char *name, *kinds, *cls; int fargs, flens; void (*f[9])(void); };")
    o.append("const struct row mock_rows[] = {\n" + ",\n".join(rows) + "};")
    o.append("const int mock_nrows = %d, mock_nwrapped = %d;" % (len(rows), len(names)))
    o.append("char ompi_mpi_comm_world[4096], ompi_mpi_comm_null[4096], ompi_mpi_comm_self[4096], ompi_mpi_datatype_null[4096], ompi_mpi_op_null[4096], " + ", ".join("ompi_mpi_op_%s[4096]" % t for t in ("max", "min", "sum", "lor", "land")) + ", ompi_mpi_info_null[4096], " + ", ".join("ompi_mpi_%s[4096]" % t for t in ("int", "char", "float", "double", "c_bool", "int64_t", "int32_t")) + ";")
    text = "\n".join(o) + "\n"
    if not os.path.exists(path) or open(path).read() != text:
        with open(path + ".tmp%d" % os.getpid(), "w") as f:
            f.write(text)
        os.replace(path + ".tmp%d" % os.getpid(), path)


def f08_object(tree, build):
    """Compile the Fortran 2008 interface; returns the object."""
    src = os.path.join(tree.gen, "LB_MPI", "MPI_interceptF08.F90")
    obj = src + ".o"
    if not os.path.exists(obj):
        d = os.path.join(build.REPO, "src/LB_MPI")
        import sys
        build.run([sys.executable, os.path.join(build.REPO, "scripts/pygen.py"), "-s", "3.1", "-j", os.path.join(d, "mpicalls.json"), "-i", os.path.join(d, "MPI_interceptF08.F90.in"), "-o", src])
        build.run(["gfortran", "-w", "-O1", "-cpp", "-ffree-line-length-none", "-c", src, "-o", obj + ".tmp"], cwd=os.path.dirname(src))
        os.replace(obj + ".tmp", obj)
    return obj


def prepare(tree, build, harness, args=(), wraps=()):
    # the table of the harness lists the functions that DLB intercepts
    table = [tuple(l.split()) for l in open(os.path.join(build.VERIF, "harness", "mpi_table.txt")) if l.strip() and l[0] != "#"]
    gen = os.path.join(tree.gen, "mpi_gen.c")
    generate(gen, table)
    out = tree.pygen_mpi()
    srcs = build.lib_sources() + [os.path.join(build.REPO, "src/LB_MPI/process_MPI.c")] + [os.path.join(out, f) for f in ("MPI_calls_coded.c", "MPI_intercept.c", "MPI_interceptF.c", "MPI_interface.c", "MPI_interfaceF.c")]
    f08 = f08_object(tree, build)
    inc = tuple("-I" + d for d in incdirs()) + ("-DOMPI_SKIP_MPICXX",)
    return [tree.harness(harness, "mpi", wraps=wraps, sources=srcs, extra_src=(gen,), extra=inc, libs=(f08, "-lgfortran", "-lquadmath"), tag="-m")] + list(args)
