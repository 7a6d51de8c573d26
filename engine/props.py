from driver import run_obligations as OBL, run_witness as WIT, run_ids as IDS, run_flow as FLOW, run_same as SAME, run_forbid as FORBID, run_query as QUERY, run_cond as COND
from driver import VERIF
C22PICK = "other_|zero_|ctl_|base_|fresh[05]_(aefusion|alphabetaswap|bruteforce|cgc|dynprog|gibbs|greedygremlin|hqpbo|icm|lazyflipper|partitionmove|lazyflipper_max|bruteforce_max|dynprog_max|icm_max)$|run[05]_(bruteforce|dynprog|gibbs|greedygremlin|hqpbo|icm|bruteforce_max|dynprog_max|icm_max)$"
STUBBED = ["extqpbo", "hqpbo", "mqpbo", "aefusion", "combilp", "rinf", "dmc"]
H5OPEN = "H5Fopen,H5Fcreate,H5Gopen1,H5Gcreate1,H5Gopen2,H5Gcreate2,H5Dopen1,H5Dcreate1,H5Dopen2,H5Dcreate2,H5Screate_simple,H5Screate,H5Scopy,H5Dget_space,H5Dget_type,H5Dget_create_plist,H5Tcopy,H5Tget_native_type,H5Pcreate,H5Aopen,H5Aopen_name,H5Acreate1,H5Acreate2,H5Aget_space,H5Aget_type,H5Oopen"
H5CLOSE = "H5Fclose,H5Gclose,H5Dclose,H5Sclose,H5Tclose,H5Pclose,H5Aclose,H5Oclose"
H5OPQ = {"gm": ["-opaque", "^void marray::hdf5::(save|load)"]}
H5 = {"glob": "h5/*.cxx", "defs": ["-I/usr/include/hdf5/serial", "-I/usr/include/hdf5"], "unit_args": H5OPQ, "min": 50, "min_ctl": 8, "min_events": 1, "merge_roots": True}
PROPS = {
 "C01": [(OBL, {"min": 25})],
 "C02": [(OBL, {"min": 60})],
 "C03": [(OBL, {"min": 80})],
 "C04": [(OBL, {"min": 30})],
 "C05": [(OBL, {"min": 50})],
 "C06": [(OBL, {"min": 180})],
 "C10": [(OBL, {"min": 40})],
 "C11": [(OBL, {"min": 120, "debug_pick": "all_|state|acc_"})],
 "C29": [(OBL, {"min": 110})],
 "C30": [(OBL, {"min": 45})],
 "C12": [(OBL, {"min": 20})],
 "C07": [(OBL, {"min": 60})],
 "C08": [(OBL, {"min": 60})],
 "C09": [(WIT, {}), (IDS, {"min": 20, "table": {"ExplicitFunction": 16000, "SparseFunction": 16001, "AbsoluteDifferenceFunction": 16002, "TruncatedAbsoluteDifferenceFunction": 16003,
   "SquaredDifferenceFunction": 16004, "TruncatedSquaredDifferenceFunction": 16005, "PottsFunction": 16006, "PottsNFunction": 16007, "ConstantFunction": 16008, "StaticSingleSiteFunction": 16009,
   "DynamicSingleSiteFunction": 16010, "PottsGFunction": 16011, "FoEFunction": 16033, "PythonFunction": 16100, "LPotts": 16165, "LUnary": 16166, "LWeightedSumOfFunctions": 16167,
   "LinearConstraintFunction": 15999, "LabelOrderFunction": 15998, "NumLabelsLimitationFunction": 15997, "SumConstraintFunction": 15996, "LabelCostFunction": 15995}})],
 "C13": [(OBL, {"min": 60})],
 "C14": [(OBL, {"min": 110})],
 "C15": [(OBL, {"min": 300})],
 "C20": [(FLOW, {"glob": "*.cxx", "mode": "visitor", "min": 34, "min_events": 2, "min_ctl": 9, "optional": STUBBED, "kinds": {"return-without-end", "return-without-begin", "begin-after-end", "second-begin", "end-before-begin", "second-end", "visit-before-begin", "visit-after-end"},
   "rule": "begin exactly once before any visit, end exactly once, nothing after end, no normal return in between"})],
 "C21": [(OBL, {"min": 11}), (FLOW, {"glob": "*.cxx", "mode": "visitor", "min": 34, "min_events": 2, "min_ctl": 6, "optional": STUBBED, "kinds": {"visit-after-stop"},
   "rule": "every visit may answer continue, bound reached or timeout; after a stop answer no visit is reachable, only end"})],
 "C22": [(OBL, {"min": 90, "units": ["flow/[a-z]*.cxx"], "cflags": ["-I" + VERIF + "/flow/stubs", "-DWITH_BOOST", "-DOGM_ARG"], "may_throw": True, "modes": ["release"], "optional": STUBBED + ["ctl"], "secs": 40, "pick": C22PICK}),
         (QUERY, {"min": 68, "min_ctl": 10, "optional": STUBBED})],
 "C23": [(SAME, {"min": 66, "optional": STUBBED})],
 "C24": [(FLOW, dict(H5, mode="handle", kinds={"not-closed-on-return", "not-closed-on-throw", "closed-twice", "opened-again-while-open"}, args=["-sites", H5OPEN, "-closers", H5CLOSE],
   rule="for every opening call site: on every path out of the operation the handle it returned was closed exactly once (or is what the operation returns)"))],
 "C25": [(FLOW, dict(H5, mode="status", kinds={"returns-after-failure"}, args=["-sites", H5OPEN + ",H5Dread,H5Dwrite,H5Aread,H5Awrite,H5Sselect_hyperslab,H5Sget_simple_extent_dims", "-closers", H5CLOSE],
   rule="for every open, create, read or write call site: once it has reported failure, no path returns normally"))],
 "C26": [(COND, {"min": 600, "min_ctl": 15, "min_units": 85})],
 "C28": [(FORBID, {"min": 60, "min_ctl": 16, "optional": STUBBED, "documented": {"gibbs": {"rand"}, "extqpbo": {"rand"}, "mqpbo": {"rand", "srand"}, "rinf": {"rand", "srand"}, "alphaexpansion": {"rand", "srand"}, "aefusion": {"rand", "srand"}}})],
}
