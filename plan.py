plan("P02", J("d_dense", only="P02.*", scale=2, tscale=1))
plan("P03", J("d_dense", only="P03.*", scale=4, tscale=1))
plan("P04", J("d_sparse", only="P04.*", scale=4, tscale=1), J("p_scalecsr", "probe"))
plan("P06", J("d_solver", only="P06.*"))
plan("P07", J("d_solver", only="P07.*", scale=8, tscale=1))
plan("P08", J("d_eigen", only="P08.*"))
plan("P09", J("d_shape", only="P09.*", scale=4, tscale=1))
plan("P10", J("d_shape", only="P10.*", scale=4, tscale=1))
plan("P11", J("d_asm", only="P11.*", scale=2, tscale=1))
plan("P12", J("d_asm", only="P12.*", scale=4, tscale=1))
plan("P13", J("d_geom", only="P13.*", scale=2, tscale=1), J("d_flow", only="P13.*", scale=2, tscale=1))
plan("P14", J("d_elas", only="P14.*"), J("d_struct", only="P14.*"))
plan("P15", J("d_elas", only="P15.*", scale=4, tscale=1), J("d_struct", only="P15.*", scale=4, tscale=1))
plan("P16", J("d_elas", only="P16.*"), J("d_struct", only="P16.*"), J("d_trans", only="P16.*"), J("d_flow", only="P16.*"))
plan("P17", J("d_geom", only="P17.*", scale=20, tscale=1), J("d_flow", only="P17.*", scale=20, tscale=1))
plan("P18", J("d_nl", only="P18.*"))
plan("P19", J("d_trans", only="P19.*", scale=20, tscale=1))
plan("P20", J("d_flow", only="P20.*", scale=20, tscale=1))
plan("P21", J("d_homog", only="P21.*", scale=10, tscale=1))
plan("P27", J("d_mesh", only="P27.*", scale=4, tscale=1))
plan("P28", J("d_mesh", only="P28.*", scale=4, tscale=1), J("d_delaunay", only="P28.*", scale=4, tscale=1))
plan("P29", J("d_delaunay", only="P29.*"))
plan("P23", J("d_opt", only="P23.*"))
plan("P24", J("d_opt", only="P24.*"))
plan("P25", J("d_filter", only="P25.*", scale=4, tscale=1))
plan("P26", J("d_opt", only="P26.*", scale=20, tscale=1))
plan("P22", J("d_bvp", only="P22.*"))
plan("P31", J("d_loop", only="P31.*", scale=2, tscale=1))
plan("P32", J("d_march", only="P32.*", scale=2, tscale=1))
_omp = {"OMP_WAIT_POLICY": "passive"}
plan("P05", J("d_omp", shards=2, env=_omp, casecpu=300),
     *[J("d_omp", "tsan", shards=2, env=dict(_omp, VH_DELAY=str(k)), tag="d%d" % k, casecpu=300) for k in (0, 5, 9)])
plan("P30", J("d_io", only="P30.*", shards=6, scale=3, tscale=1), J("d_io2", only="P30.*", shards=2, scale=3, tscale=1))
_all = ["d_dense", "d_sparse", "d_solver", "d_eigen", "d_shape", "d_asm", "d_elas", "d_struct", "d_geom", "d_nl", "d_trans", "d_flow", "d_homog", "d_mesh", "d_delaunay", "d_filter", "d_opt", "d_bvp", "d_io", "d_io2", "d_loop", "d_march"]
_mc = ["valgrind", "-q", "--vgdb=no", "--error-exitcode=96", "--track-origins=no", "--leak-check=no"]
# the programs the repository ships (those present in this tree); long ones are stopped after the budget
_long = ("navierstokes", "optimize", "reactiondiffusion", "lagrange", "stokes", "solid")
_samples = sorted((os.path.relpath(os.path.join(d, f), REPO) for d, _, fs in os.walk(os.path.join(REPO, "sample")) for f in fs if f.endswith(".cpp")), key=lambda p: (not any(k in p for k in _long), p))
plan("P01", *[J(p, "sample", sanitize_only=True, limit=40, tlimit=1800) for p in _samples], *[J(d, sanitize_only=True, leaks=True, scale=0.25, tscale=1.0, shards=2 if d in ("d_bvp", "d_elas", "d_delaunay", "d_solver", "d_opt") else 1, casecpu=120) for d in _all],
     *[J(d, "plain", sanitize_only=True, scale=0.01, tscale=0.08, shards=1, wrapper=_mc, tag="memcheck", casecpu=600) for d in _all])
