"""Catalogue of calls of the public functions, for purity and history checks.

OPS: name -> (builder, random, group).  builder() makes fresh arguments and
returns (function, args, kwargs)."""
import math
from decimal import Decimal as D

import numpy as np
import pandas as pd

from mlpaper import boot_util as bu
from mlpaper import classification as cl
from mlpaper import data_splitter as ds
from mlpaper import mlpaper as mp
from mlpaper import perf_curves as pc
from mlpaper import regression as rg
from mlpaper import sciprint as sp
from mlpaper import util as ut

from mc import gen, stubs
from mc.checks.c21 import table

INF, NAN = float("inf"), float("nan")
OPS = {}


def op(name, random=False, heavy=False, group=None):
    def deco(b):
        OPS[name] = dict(build=b, random=random, heavy=heavy, group=group or name.split(" ")[0])
        return b

    return deco


def add(name, f, *make, **kw):
    random, heavy = kw.pop("random_", False), kw.pop("heavy_", False)

    def b():
        a = [m() if callable(m) and getattr(m, "_lazy", True) and not isinstance(m, type) and m.__name__ == "<lambda>" else m for m in make]
        k = {n: (v() if callable(v) and getattr(v, "__name__", "") == "<lambda>" else v) for n, v in kw.items()}
        return f, a, k

    op(name, random, heavy)(b)


A = lambda *v: (lambda: np.array(v))  # noqa: E731
F = lambda n, s=0: (lambda: np.array(gen.pattern_floats(n, s)))  # noqa: E731

# ---- bootstrap primitives
add("boot_weights 4", bu.boot_weights, 4, 5, random_=True)
add("boot_weights eps", bu.boot_weights, 3, 4, epsilon=1e-3, random_=True)
add("confidence_to_percentiles", bu.confidence_to_percentiles, 0.9)
add("confidence_to_percentiles b", bu.confidence_to_percentiles, 0.99)
add("percentile", bu.percentile, F(11), 0.9)
add("percentile 2d", bu.percentile, lambda: np.array(gen.pattern_floats(12)).reshape(6, 2))
add("basic", bu.basic, F(11), 0.5)
add("error_bar", bu.error_bar, F(9, 2), 0.25, 0.8)
add("significance", bu.significance, F(9, 2), 0.25)
add("significance ties", bu.significance, A(1.0, 1.0, 0.0, 2.0), 1.0)

# ---- means, bars and tests
for nm, x in [("a", F(6)), ("b", F(6, 3)), ("const", A(2.0, 2.0, 2.0)), ("one", A(1.5)), ("nan", A(1.0, NAN, 2.0)), ("inf", A(1.0, INF, 2.0))]:
    add("t_test " + nm, mp.t_test, x)
    add("t_EB " + nm, mp.t_EB, x, 0.9)
    add("get_mean_EB_test t " + nm, mp.get_mean_EB_test, x)
add("t_EB list", mp.t_EB, lambda: np.array([0.5, 1.0, 0.25, 0.125]))
add("bernstein_test", mp.bernstein_test, A(0.5, 0.25, 0.75, 0.5), 0.0, 1.0)
add("bernstein_EB", mp.bernstein_EB, A(0.5, 0.25, 0.75, 0.5), 0.0, 1.0)
add("bernstein_EB b", mp.bernstein_EB, A(0.5, 0.25, 0.75, -0.5), -1.0, 2.0, confidence=0.8)
add("boot_test", mp.boot_test, F(7), n_boot=20, random_=True)
add("boot_EB", mp.boot_EB, F(7), n_boot=20, random_=True)
add("boot_EB b", mp.boot_EB, F(7, 1), 0.8, n_boot=30, random_=True)
add("clip_EB", mp.clip_EB, 0.5, 3.0, 0.0, 1.0)
add("clip_EB b", mp.clip_EB, 0.5, 0.0, 0.0, 1.0, min_EB=0.1)
for meth in ("t", "bernstein", "boot"):
    add("get_mean_and_EB " + meth, mp.get_mean_and_EB, A(0.5, 0.25, 0.75, 0.5), lower=0.0, upper=1.0, method=meth, random_=meth == "boot")
    add("get_test " + meth, mp.get_test, A(0.5, 0.25, 0.75, 0.5), lower=-1.0, upper=1.0, method=meth, random_=meth == "boot")
    add("get_mean_EB_test " + meth, mp.get_mean_EB_test, A(0.5, 0.25, 0.75, 0.5), lower=0.0, upper=1.0, method=meth, random_=meth == "boot")


def loss_tbl(n=6, methods=("b", "a", "c"), metrics=("NLL", "Brier"), salt=0):
    cols = pd.MultiIndex.from_product([list(metrics), list(methods)], names=["metric", "method"])
    v = [[0.5 + ((i * 7 + j * 5 + i * j + salt) % 11) / 11.0 for j in range(len(cols))] for i in range(n)]
    return pd.DataFrame(v, columns=cols)


add("loss_summary_table", mp.loss_summary_table, lambda: loss_tbl(), "a")
add("loss_summary_table other", mp.loss_summary_table, lambda: loss_tbl(5, ("b", "a"), ("zero_one",), 3), "b")
add("loss_summary_table pairwise", mp.loss_summary_table, lambda: loss_tbl(), "b", pairwise_CI=True, confidence=0.8)
add("loss_summary_table limits", mp.loss_summary_table, lambda: loss_tbl(), "b", limits=lambda: {"NLL": (0.0, 2.0)})
add("loss_summary_table bernstein", mp.loss_summary_table, lambda: loss_tbl(), "b", method_EB="bernstein", limits=lambda: {"NLL": (0.0, 2.0), "Brier": (0.0, 3.0)})
add("loss_summary_table boot", mp.loss_summary_table, lambda: loss_tbl(4), "b", method_EB="boot", random_=True, heavy_=True)

# ---- classification losses
LP = lambda n=5, L=3, s=0: (lambda: gen.logp(gen.pattern_probs(n, L, s)))  # noqa: E731
IP = lambda n=5, L=3, s=0: (lambda: gen.logp([[(v + 0.05) / (1 + 0.05 * L) for v in p] for p in gen.pattern_probs(n, L, s)]))  # noqa: E731
Y = lambda n=5, L=3, s=0: (lambda: np.array(gen.pattern_labels(n, L, s)))  # noqa: E731
MAT = lambda: np.array([[0.0, 1.0, 5.0], [2.0, 0.0, 1.0], [1.0, 4.0, 0.0]])  # noqa: E731
for f in (cl.log_loss, cl.brier_loss, cl.spherical_loss, cl.hard_loss):
    add(f.__name__, f, Y(), LP())
    add(f.__name__ + " b", f, Y(5, 3, 1), LP(5, 3, 4))
add("brier_loss raw", cl.brier_loss, Y(), LP(), rescale=False)
add("spherical_loss raw", cl.spherical_loss, Y(), LP(), rescale=False)
add("hard_loss matrix", cl.hard_loss, Y(), IP(), MAT)
add("hard_loss_decision", cl.hard_loss_decision, IP(), MAT)
add("hard_loss_decision zeros", cl.hard_loss_decision, LP(), MAT)
add("log_loss rejected", cl.log_loss, Y(), lambda: gen.logp(gen.pattern_probs(5, 3)) + 1.0)
add("hard_loss rejected", cl.hard_loss, Y(4), LP())


def pred_tbl(n=6, L=2, methods=("b", "a", "c"), zeros=False, scale=0.0):
    cols = pd.MultiIndex.from_product([list(methods), range(L)], names=["method", "label"])
    P = [gen.pattern_probs(n, L, s + 1) for s in range(len(methods))]
    if not zeros:
        P = [[[(v + 0.05) / (1 + 0.05 * L) for v in r] for r in p] for p in P]
    return pd.DataFrame(np.concatenate([gen.logp(p) for p in P], axis=1) + scale, columns=cols)


STD = lambda: dict(cl.STD_CLASS_LOSS)  # noqa: E731
CUR = lambda: dict(cl.STD_BINARY_CURVES)  # noqa: E731
YB = lambda n=6: (lambda: np.array([(i * i + i // 3) % 2 for i in range(n)]))  # noqa: E731
add("loss_table", cl.loss_table, lambda: pred_tbl(), YB(), STD)
add("loss_table shared", cl.loss_table, lambda: pred_tbl(), YB(), lambda: cl.STD_CLASS_LOSS)
add("loss_table unnormalized", cl.loss_table, lambda: pred_tbl(scale=1.5), YB(), STD)
add("loss_table assumed", cl.loss_table, lambda: pred_tbl(), YB(), STD, assume_normalized=True)
add("loss_table three", cl.loss_table, lambda: pred_tbl(6, 3, ("q", "r"), zeros=True), Y(6), STD)

# ---- curves
S = lambda *v: (lambda: np.array(v, dtype=float))  # noqa: E731
B = lambda *v: (lambda: np.array(v, dtype=bool))  # noqa: E731
for f in (pc.roc_curve, pc.recall_precision_curve, pc.prg_curve):
    add(f.__name__, f, B(0, 1, 1, 0, 1), S(0.1, 0.9, 0.5, 0.5, 0.3))
    add(f.__name__ + " b", f, B(1, 0, 1), S(3, 1, 2))
    add(f.__name__ + " sorted", f, B(1, 0, 1), S(3, 2, 1))
    add(f.__name__ + " weights", f, B(0, 1, 1, 0, 1), S(0.5, 0.9, 0.1, 0.5, 0.3), lambda: np.array([[1.0, 2.0, 1e-3, 1.0, 3.0]]))
    add(f.__name__ + " weights2d", f, B(0, 1, 1, 0), S(0.4, 0.9, 0.1, 0.4), lambda: np.array([[1, 2, 1, 1e-9], [1, 1, 2, 5], [3, 1, 1, 1]], dtype=float))
    add(f.__name__ + " oneclass", f, B(1, 1, 1), S(0.4, 0.9, 0.1))
    add(f.__name__ + " rejected", f, A(1, 0, 1), S(0.4, 0.9, 0.1))
for cf in (pc.roc_curve, pc.recall_precision_curve, pc.prg_curve):
    add("curve_boot " + cf.__name__, cl.curve_boot, YB(), lambda: pred_tbl()["b"].values, 0.5, curve_f=cf, n_boot=15, random_=True)
add("curve_boot ref", cl.curve_boot, YB(), lambda: pred_tbl()["b"].values, lambda: pred_tbl()["a"].values, n_boot=15, pairwise_CI=True, random_=True)
add("curve_boot grid", cl.curve_boot, YB(), lambda: pred_tbl()["b"].values, 0.5, x_grid=lambda: np.array([0.0, 0.25, 1.0]), n_boot=12, confidence=0.8, random_=True)
add("curve_summary_table", cl.curve_summary_table, lambda: pred_tbl(), YB(), CUR, "a", n_boot=10, random_=True)
add("curve_summary_table grid", cl.curve_summary_table, lambda: pred_tbl(), YB(), lambda: {"AUC": pc.roc_curve, "AP": pc.recall_precision_curve}, "b", x_grid=lambda: np.array([0.25, 0.5, 1.0]), n_boot=10, pairwise_CI=True, random_=True)
add("summary_table", cl.summary_table, lambda: pred_tbl(), YB(), STD, CUR, "a", n_boot=10, random_=True)
add("summary_table limits", cl.summary_table, lambda: pred_tbl(), YB(), lambda: cl.STD_CLASS_LOSS, lambda: cl.STD_BINARY_CURVES, "b", n_boot=10, limits=lambda: {"NLL": (0.0, 9.0)}, random_=True)
add("summary_table one curve", cl.summary_table, lambda: pred_tbl(6, 2, ("q", "r")), YB(), STD, lambda: {"AUC": pc.roc_curve}, "q", n_boot=10, random_=True)

# ---- regression
G = lambda n=5: (lambda: np.abs(np.array(gen.pattern_floats(n, 4))) + 0.1)  # noqa: E731
for f in (rg.square_loss, rg.abs_loss, rg.log_loss):
    add("regression." + f.__name__, f, F(5), F(5, 2), G())


def gauss_tbl(n=5, methods=("b", "a"), stats=("mu", "std")):
    cols = pd.MultiIndex.from_product([list(methods), list(stats)], names=["method", "stat"])
    v = np.abs(np.array(gen.pattern_floats(n * len(cols), 5)).reshape(n, len(cols))) + 0.2
    return pd.DataFrame(v, columns=cols)


add("regression.loss_table", rg.loss_table, lambda: gauss_tbl(), F(5), lambda: dict(rg.STD_REGR_LOSS))
add("regression.loss_table shared", rg.loss_table, lambda: gauss_tbl(5, ("m", "n", "o")), F(5, 1), lambda: rg.STD_REGR_LOSS)

# ---- predictions and benchmarks
rowsP = tuple(tuple(math.log(0.02 + 0.96 * v) for v in p) for p in gen.pattern_probs(7, 2, 1))
Xa = lambda n=8: (lambda: np.array([[((i * 7) % 11) / 3.0, ((i * 5) % 13) / 4.0] for i in range(n)]))  # noqa: E731
CM = lambda: {"z": stubs.Learner("z", rowsP), "iid": cl.JustNoise(2, 1.0), "p": stubs.Proba("p", rowsP)}  # noqa: E731
RM = lambda: {"z": stubs.LearnMuStd("z"), "iid": rg.JustNoise()}  # noqa: E731
add("get_pred_log_prob", cl.get_pred_log_prob, Xa(), YB(8), Xa(5), 2, CM, min_log_prob=-3.0)
add("get_pred_log_prob nofloor", cl.get_pred_log_prob, Xa(7), YB(7), Xa(5), 2, lambda: {"iid": cl.JustNoise()})
add("get_gauss_pred", rg.get_gauss_pred, Xa(), F(8), Xa(5), RM, min_std=0.3)
add("get_gauss_pred nofloor", rg.get_gauss_pred, Xa(7), F(7), Xa(5), lambda: {"iid": rg.JustNoise()})
add("classification.just_benchmark", cl.just_benchmark, Xa(), YB(8), Xa(6), YB(6), 2, CM, STD, CUR, "iid", min_pred_log_prob=-5.0, random_=True, heavy_=True)
add("classification.just_benchmark shared", cl.just_benchmark, Xa(), YB(8), Xa(6), YB(6), 2, CM, lambda: cl.STD_CLASS_LOSS, lambda: {"AUC": pc.roc_curve}, "iid", min_pred_log_prob=-5.0, limits=lambda: {"NLL": (0.0, 9.0)}, random_=True, heavy_=True)
add("regression.just_benchmark", rg.just_benchmark, Xa(), F(8), Xa(6), F(6, 3), RM, lambda: rg.STD_REGR_LOSS, "iid")
add("regression.just_benchmark pairwise", rg.just_benchmark, Xa(), F(8), Xa(6), F(6, 3), RM, lambda: dict(rg.STD_REGR_LOSS), "z", pairwise_CI=True, limits=lambda: {"MSE": (0.0, 1e6)})

# ---- splits
DFR = lambda: pd.DataFrame({"t": [3, 1, 2, 2, 5, 4], "g": list("aabbcc"), "v": np.arange(6) * 0.5}, index=[10, 11, 12, 13, 14, 15])  # noqa: E731
add("split_df", ds.split_df, DFR, random_=True)
add("split_df ordered", ds.split_df, DFR, lambda: {"t": ("ordered", 0.5)})
add("split_df linear", ds.split_df, DFR, lambda: {"t": ("linear", 0.5), None: ("ordered", 0.75)})
add("split_df mixed", ds.split_df, DFR, lambda: {"g": ("random", 0.5), None: ("ordered", 0.75)}, assume_sorted=lambda: [None], assume_unique=lambda: {None}, random_=True)
SER = lambda: pd.Series([3, 1, 2, 2, 5, 4], index=list("fedcba"))  # noqa: E731
add("random_split_series", ds.random_split_series, SER, 0.5, random_=True)
add("ordered_split_series", ds.ordered_split_series, SER, 0.5)
add("ordered_split_series sorted", ds.ordered_split_series, lambda: SER().sort_values(), 0.5, assume_sorted=True)
add("linear_split_series", ds.linear_split_series, SER, 0.4)
add("rand_subset", ds.rand_subset, lambda: np.arange(7), 0.5, random_=True)
add("rand_mask", ds.rand_mask, 7, 0.5, random_=True)
add("index_to_series", ds.index_to_series, lambda: pd.Index([3, 1, 2]))
add("build_lag_df", ds.build_lag_df, lambda: DFR()[["t", "v"]], 3)
add("build_lag_df features", ds.build_lag_df, DFR, 3, stride=2, features=lambda: ["v"])

# ---- formatting
TF = lambda: table({"m1": {"b_l": (1.2345, 0.067, 0.01), "a": (0.00012, 3e-5, NAN)}, "m2": {"b_l": (-20.5, 3.3, 1.0), "a": (5e-4, 0.0, 0.5)}}, ["m1", "m2"], ["b_l", "a"])  # noqa: E731
TG = lambda: table({"m1": {"x": (1e7, 2e9, 0.01)}, "m2": {"x": (NAN, NAN, NAN)}, "m3": {"x": (3.5, 0.25, 0.3)}}, ["m1", "m2", "m3"], ["x"])  # noqa: E731
TD = lambda: sp.decimalize(TF())  # noqa: E731
add("decimalize", sp.decimalize, TF)
add("decimalize options", sp.decimalize, TG, 3, 2, 4, EB_limit=lambda: {"x": 1})
add("decimalize limit", sp.decimalize, TF, EB_limit=lambda: {"b_l": 0})
add("decimalize rejected", sp.decimalize, lambda: table({"m": {"x": (1.0, -1.0, 0.5)}}, ["m"], ["x"]))
add("format_table", sp.format_table, TD)
add("format_table shift", sp.format_table, TD, shift_mod=3, crap_limit_max=lambda: {"b_l": 0}, crap_limit_min=lambda: {"b_l": 1}, non_finite_fmt=lambda: {"nan": "--"})
add("format_table nopad", sp.format_table, TD, shift_mod=1, pad=False)
add("print_estimate", sp.print_estimate, D("1.235"), D("0.068"), 2)
add("print_estimate clip", sp.print_estimate, D("1.235"), D("0.068"), 0, D("-1E+1"), D("1E+0"))
add("print_estimate nan", sp.print_estimate, D("NaN"), D("NaN"), non_finite_fmt=lambda: {"nan": "--"})
add("print_estimate nan default", sp.print_estimate, D("NaN"), D("NaN"))
add("print_estimate rejected", sp.print_estimate, D("1.2E+3"), D("Infinity"), 0)
add("print_pval", sp.print_pval, D("0.0001"))
add("print_pval nan", sp.print_pval, D("NaN"), non_finite_fmt=lambda: {"nan": "?"})
add("print_pval nan default", sp.print_pval, D("NaN"))
add("find_shift", sp.find_shift, lambda: [D("0.0012"), D("0.34")], lambda: [D("0.0001"), D("0.02")], shift_mod=3)
add("find_shift b", sp.find_shift, lambda: [D("1200"), D("34E+2")], lambda: [D("1"), D("2E+2")])
add("pad_num_str", sp.pad_num_str, lambda: ["1.2(3)", "-10", "nan"])
add("adjust_headers", sp.adjust_headers, lambda: [("b_l", "estimate"), ("b_l", "p")], lambda: {"b_l": 3}, lambda: {"b_l": "s"})
add("adjust_headers tex", sp.adjust_headers, lambda: [("b_l", "estimate"), ("b_l", "p")], lambda: {"b_l": 6}, lambda: {"b_l": "s"}, use_tex=True)
add("adjust_headers unitless", sp.adjust_headers, lambda: [("b_l", "estimate"), ("b_l", "p")], lambda: {"b_l": 3}, lambda: {})
add("table_to_string", sp.table_to_string, lambda: sp.format_table(TD(), 3)[0], lambda: {"a": 3, "b_l": 0}, lambda: {"a": "s"})
add("table_to_latex", sp.table_to_latex, lambda: sp.format_table(TD(), 3)[0], lambda: {"a": 3, "b_l": 0}, lambda: {"a": "s"})
add("just_format_it", sp.just_format_it, TF)
add("just_format_it options", sp.just_format_it, TF, lambda: {"a": "s"}, shift_mod=3, crap_limit_max=lambda: {"b_l": 0}, EB_limit=lambda: {"b_l": 0}, non_finite_fmt=lambda: {"nan": "--"})
add("just_format_it tex", sp.just_format_it, TG, shift_mod=3, use_tex=True, crap_limit_max=lambda: {"x": 4})
add("just_format_it rejected", sp.just_format_it, TG)
add("create_decimal", sp.create_decimal, 1.25, 2)
add("create_decimal b", sp.create_decimal, 1.25, 2, "ROUND_CEILING")

# ---- helpers
add("one_hot", ut.one_hot, lambda: np.array([0, 2, 1]), 3)
add("normalize", ut.normalize, lambda: gen.logp(gen.pattern_probs(4, 3)) * 1.0 + 2.0)
add("normalize inf", ut.normalize, LP())
add("epsilon_noise", ut.epsilon_noise, A(1.0, 1.0, 2.0), random_=True)
add("cummax_strict", ut.cummax_strict, A(3.0, 1.0, 2.0, 4.0))
add("cummax_strict sorted", ut.cummax_strict, A(1.0, 2.0, 4.0))
add("unique_take_last", ut.unique_take_last, A(0.0, 0.0, 1.0), A(1.0, 2.0, 3.0))
add("eval_step_func", ut.eval_step_func, A(0.0, 0.5, 2.0), A(1.0, 0.0), A(5.0, 4.0))
add("eval_step_func ival", ut.eval_step_func, A(-1.0, 0.5, 2.0), A(0.0, 1.0), A(5.0, 4.0), ival=9.0, assume_sorted=True)
add("interp linear", ut.interp1d, A(0.0, 0.5, 1.0), A(0.0, 1.0), A(5.0, 4.0))
add("interp previous", ut.interp1d, A(0.0, 0.5, 1.0), A(0.0, 1.0), A(5.0, 4.0), kind="previous")
add("area linear", ut.area, lambda: np.array([[0.0, 0.5, 1.0]]), lambda: np.array([[0.0, 1.0, 4.0]]), "linear")
add("area previous", ut.area, lambda: np.array([[0.0, 0.5, 1.0]]), lambda: np.array([[0.0, INF, 4.0]]), "previous")
add("clip_chk", ut.clip_chk, A(0.0, 0.5, 1.0), 0.0, 1.0)

# ---- large data: thresholds in size must not change who owns what
LARGE = []


def large(name, f, *make, **kw):
    kw.setdefault("heavy_", True)
    add("large " + name, f, *make, **kw)
    OPS["large " + name]["group"] = "large"
    LARGE.append("large " + name)


_N = 12000
_ip = lambda n, L, s=0: (lambda: np.log((np.arange(n * L).reshape(n, L) * 7 + s) % 11 + 1.0) - np.log(((np.arange(n * L).reshape(n, L) * 7 + s) % 11 + 1.0).sum(axis=1, keepdims=True)))  # noqa: E731
_y = lambda n, L, s=0: (lambda: (np.arange(n) * 5 + np.arange(n) // 3 + s) % L)  # noqa: E731
_f = lambda n, s=0: (lambda: ((np.arange(n) * 37 + s * 11) % 101) / 8.0)  # noqa: E731


def _wide(n, L, methods, kind):
    if kind == "gauss":
        cols = pd.MultiIndex.from_product([list(methods), ["mu", "std"]], names=["method", "stat"])
        return pd.DataFrame(np.stack([_f(n, j)() + 0.5 for j in range(len(cols))], axis=1), columns=cols)
    if kind == "loss":
        cols = pd.MultiIndex.from_product([["NLL", "Brier"], list(methods)], names=["metric", "method"])
        return pd.DataFrame(np.stack([_f(n, j)() for j in range(len(cols))], axis=1), columns=cols)
    cols = pd.MultiIndex.from_product([list(methods), range(L)], names=["method", "label"])
    return pd.DataFrame(np.concatenate([_ip(n, L, j)() for j in range(len(methods))], axis=1), columns=cols)


for _n, _L in ((_N, 2), (150, 100), (70000, 3)):
    large("normalize %dx%d" % (_n, _L), ut.normalize, lambda _n=_n, _L=_L: _ip(_n, _L)() + 2.0)
    large("log_loss %dx%d" % (_n, _L), cl.log_loss, _y(_n, _L), _ip(_n, _L))
    large("brier_loss %dx%d" % (_n, _L), cl.brier_loss, _y(_n, _L), _ip(_n, _L))
    large("spherical_loss %dx%d" % (_n, _L), cl.spherical_loss, _y(_n, _L), _ip(_n, _L))
    large("hard_loss %dx%d" % (_n, _L), cl.hard_loss, _y(_n, _L), _ip(_n, _L))
    large("hard_loss matrix %dx%d" % (_n, _L), cl.hard_loss, _y(_n, _L), _ip(_n, _L), lambda _L=_L: np.abs(np.arange(_L)[:, None] - np.arange(_L)[None, :]) * 1.5)
    large("loss_table %dx%d" % (_n, _L), cl.loss_table, lambda _n=_n, _L=_L: _wide(_n, _L, ("b", "a"), "class"), _y(_n, _L), STD)
    large("one_hot %dx%d" % (_n, _L), ut.one_hot, _y(_n, _L), _L)
for _n in (_N, 70000):
    for f in (rg.square_loss, rg.abs_loss, rg.log_loss):
        large("regression.%s %d" % (f.__name__, _n), f, _f(_n), _f(_n, 1), lambda _n=_n: _f(_n, 2)() + 1.0)
    large("regression.loss_table %d" % _n, rg.loss_table, lambda _n=_n: _wide(_n, 0, ("b", "a"), "gauss"), _f(_n, 5), lambda: dict(rg.STD_REGR_LOSS))
    large("loss_summary_table %d" % _n, mp.loss_summary_table, lambda _n=_n: _wide(_n, 0, ("b", "a"), "loss"), "b", limits=lambda: {"NLL": (0.0, 20.0)})
    large("loss_summary_table pairwise %d" % _n, mp.loss_summary_table, lambda _n=_n: _wide(_n, 0, ("b", "a"), "loss"), "b", pairwise_CI=True, method_EB="bernstein", limits=lambda: {"NLL": (0.0, 20.0), "Brier": (0.0, 20.0)})
    large("t_EB %d" % _n, mp.t_EB, _f(_n))
    large("bernstein_EB %d" % _n, mp.bernstein_EB, _f(_n), 0.0, 20.0)
    large("get_mean_EB_test %d" % _n, mp.get_mean_EB_test, _f(_n), lower=0.0, upper=20.0)
    for f in (pc.roc_curve, pc.recall_precision_curve, pc.prg_curve):
        large("%s %d" % (f.__name__, _n), f, lambda _n=_n: _y(_n, 2)().astype(bool), _f(_n))
    large("percentile %d" % _n, bu.percentile, _f(_n))
    large("error_bar %d" % _n, bu.error_bar, _f(_n), 6.0)
    large("significance %d" % _n, bu.significance, _f(_n), 6.0)
    large("area %d" % _n, ut.area, lambda _n=_n: np.linspace(0, 1, _n)[None, :] * np.ones((2, 1)), lambda _n=_n: np.stack([_f(_n)(), _f(_n, 1)()]), "linear")
    large("area previous %d" % _n, ut.area, lambda _n=_n: np.linspace(0, 1, _n)[None, :], lambda _n=_n: _f(_n)()[None, :], "previous")
    large("interp linear %d" % _n, ut.interp1d, lambda _n=_n: np.linspace(0, 1, _n), lambda _n=_n: np.linspace(0, 1, _n), _f(_n))
    large("interp previous %d" % _n, ut.interp1d, lambda _n=_n: np.linspace(0, 1, 50)[::-1].copy(), lambda _n=_n: np.linspace(0, 1, _n), _f(_n), kind="previous")
    large("eval_step_func %d" % _n, ut.eval_step_func, _f(_n), lambda _n=_n: np.linspace(0, 9, _n)[::-1].copy(), _f(_n, 3), ival=-1.0)
    large("cummax_strict %d" % _n, ut.cummax_strict, _f(_n))
    large("unique_take_last %d" % _n, ut.unique_take_last, lambda _n=_n: np.sort(_f(_n)()), _f(_n, 3))
    large("epsilon_noise %d" % _n, ut.epsilon_noise, _f(_n), random_=True)
    large("random_split_series %d" % _n, ds.random_split_series, lambda _n=_n: pd.Series(_f(_n)()), 0.5, random_=True)
    large("ordered_split_series %d" % _n, ds.ordered_split_series, lambda _n=_n: pd.Series(_f(_n)()), 0.5)
    large("linear_split_series %d" % _n, ds.linear_split_series, lambda _n=_n: pd.Series(_f(_n)()), 0.5)
    large("split_df %d" % _n, ds.split_df, lambda _n=_n: pd.DataFrame({"t": _f(_n)(), "v": _f(_n, 2)()}), lambda: {"t": ("ordered", 0.5), None: ("linear", 0.75)})
    large("rand_subset %d" % _n, ds.rand_subset, lambda _n=_n: np.arange(_n), 0.5, random_=True)
    large("build_lag_df %d" % _n, ds.build_lag_df, lambda _n=_n: pd.DataFrame({"t": _f(_n)(), "v": _f(_n, 2)()}), 3)
large("boot_EB", mp.boot_EB, _f(_N), n_boot=3, random_=True)
large("boot_test", mp.boot_test, _f(_N), n_boot=3, random_=True)
large("boot_weights", bu.boot_weights, _N, 3, random_=True)
large("percentile 2d", bu.percentile, lambda: _f(_N)().reshape(300, 40))
for f in (pc.roc_curve, pc.recall_precision_curve, pc.prg_curve):
    large(f.__name__ + " weights", f, lambda: _y(600, 2)().astype(bool), _f(600), lambda: (np.arange(30 * 600).reshape(30, 600) * 7) % 5 + 0.5)
large("curve_boot", cl.curve_boot, _y(_N, 2), _ip(_N, 2), _ip(_N, 2, 1), n_boot=3, random_=True)
large("curve_boot wide", cl.curve_boot, _y(200, 2), _ip(200, 2), 0.5, curve_f=pc.recall_precision_curve, x_grid=lambda: np.linspace(0, 1, 101), n_boot=150, random_=True)
large("summary_table", cl.summary_table, lambda: _wide(_N, 2, ("b", "a"), "class"), _y(_N, 2), STD, lambda: {"AUC": pc.roc_curve}, "a", n_boot=3, random_=True)
large("get_pred_log_prob", cl.get_pred_log_prob, Xa(_N), YB(_N), Xa(_N), 2, CM, min_log_prob=-3.0)
large("get_gauss_pred", rg.get_gauss_pred, Xa(_N), F(_N), Xa(_N), RM, min_std=0.3)
large("regression.just_benchmark", rg.just_benchmark, Xa(_N), F(_N), Xa(_N), F(_N, 3), RM, lambda: rg.STD_REGR_LOSS, "iid")
_MANY = lambda: table({"m%d" % i: {"x": (1.0 + i * 0.37, 0.1 + 0.01 * (i % 7), (i % 11) / 10.0)} for i in range(400)}, ["m%d" % i for i in range(400)], ["x"])  # noqa: E731
large("decimalize", sp.decimalize, _MANY)
large("format_table", sp.format_table, lambda: sp.decimalize(_MANY()))
large("just_format_it", sp.just_format_it, _MANY, shift_mod=3)
large("pad_num_str", sp.pad_num_str, lambda: ["%d.%d(3)" % (i % 1000, i % 10) for i in range(5000)])

# ---- calls that fail half way: nothing may be left behind
FAILING = []


class Boom(Exception):
    pass


def boom(*a, **k):
    raise Boom("no answer")


def late_boom(n):
    """A callable that works n times and then fails."""

    def make(f):
        left = [n]

        def g(*a, **k):
            if left[0] == 0:
                raise Boom("no more answers")
            left[0] -= 1
            return f(*a, **k)

        return g

    return make


class BadModel(object):
    """Fails in the given step."""

    def __init__(self, step):
        self.step = step

    def fit(self, X, y):
        if self.step == "fit":
            boom()

    def predict_proba(self, X):
        boom()

    def predict(self, X, return_std=True):
        boom()


def bad(name, *a, **k):
    add("failing " + name, *a, **k)
    FAILING.append("failing " + name)


bad("create_decimal", sp.create_decimal, "oops", 2)
bad("create_decimal digits", sp.create_decimal, 1.0, 0)
bad("create_decimal rounding", sp.create_decimal, 1.25, 3, "ROUND_ODDLY")
for st_, pos_ in (("mean", 0), ("error", 1), ("p", 2)):
    bad("decimalize " + st_, sp.decimalize, lambda pos_=pos_: table({"m1": {"x": (1.0, 0.5, 0.5)}, "m2": {"x": tuple("?" if q == pos_ else 0.25 for q in range(3))}}, ["m1", "m2"], ["x"]).astype(object))
bad("decimalize p too big", sp.decimalize, lambda: table({"m1": {"x": (1.0, 0.5, 0.5)}, "m2": {"x": (1.0, 0.5, 1.5)}}, ["m1", "m2"], ["x"]))
add("decimalize coarse", sp.decimalize, lambda: table({"m": {"x": (1e30, 1e-10, 0.5)}}, ["m"], ["x"]))
bad("format_table", sp.format_table, lambda: table({"m": {"x": (D("inf"), D("1.0"), D("0.5"))}}, ["m"], ["x"]), shift_mod=3)
bad("format_table coarse", sp.format_table, lambda: sp.decimalize(table({"m": {"x": (1.0, 0.1, 0.5)}, "k": {"x": (1234.0, 700.0, 0.5)}}, ["m", "k"], ["x"])))
bad("just_format_it", sp.just_format_it, lambda: table({"m": {"x": (1.0, 0.1, 0.5)}, "k": {"x": (1234.0, 700.0, 0.5)}}, ["m", "k"], ["x"]), non_finite_fmt=lambda: {"nan": "--"})
bad("print_estimate quantum", sp.print_estimate, D("1.235"), D("0.7"), 2)
bad("print_estimate clips", sp.print_estimate, D("1.235"), D("0.7"), 0, D("1"), D("-1"))
bad("print_pval", sp.print_pval, D("1.5"))
bad("find_shift", sp.find_shift, lambda: [D("1.0"), D("NaN")], lambda: [D("0.1"), D("0.1")])
bad("adjust_headers", sp.adjust_headers, lambda: [("b_l", "estimate"), ("c", "estimate")], lambda: {"b_l": 3}, lambda: {})
bad("percentile", bu.percentile, A(1.0, NAN))
bad("error_bar", bu.error_bar, A(1.0, 2.0), 1.5, 1.0)
bad("significance", bu.significance, A(1.0, 2.0), lambda: np.array([1.0]))
bad("boot_weights", bu.boot_weights, 0, 3)
bad("t_test", mp.t_test, A(1.0, NAN))
bad("t_EB", mp.t_EB, A(1.0, 2.0), 1.0)
bad("bernstein_test", mp.bernstein_test, A(0.5, 2.0), 0.0, 1.0)
bad("bernstein_EB", mp.bernstein_EB, A(0.5, 2.0), 0.0, 1.0)
bad("clip_EB", mp.clip_EB, 2.0, 0.5, 0.0, 1.0)
bad("get_mean_EB_test", mp.get_mean_EB_test, A(0.5, 2.0), lower=0.0, upper=1.0)
bad("get_mean_EB_test method", mp.get_mean_EB_test, A(0.5, 2.0), method="none")
bad("loss_summary_table limits", mp.loss_summary_table, lambda: loss_tbl(), "a", limits=lambda: {"NLL": (0.0, 0.75)})
bad("loss_summary_table late", mp.loss_summary_table, lambda: loss_tbl(), "a", limits=lambda: {"Brier": (0.0, 9.0), "NLL": (0.0, 0.75)})
bad("loss_summary_table ref", mp.loss_summary_table, lambda: loss_tbl(), "zz")
bad("loss_table metric", cl.loss_table, lambda: pred_tbl(), YB(), lambda: {"NLL": cl.log_loss, "late": late_boom(1)(cl.brier_loss)})
bad("loss_table nan", cl.loss_table, lambda: pred_tbl() * NAN, YB(), STD)
bad("hard_loss", cl.hard_loss, Y(), LP(), lambda: np.eye(2))
for nc_ in (0, 1, 2, 3):
    bad("curve_boot step %d" % nc_, cl.curve_boot, YB(), lambda: pred_tbl()["b"].values, lambda: pred_tbl()["a"].values, curve_f=lambda nc_=nc_: late_boom(nc_)(pc.prg_curve), n_boot=5, random_=True)
bad("curve_boot grid", cl.curve_boot, YB(), lambda: pred_tbl()["b"].values, 0.5, x_grid=lambda: np.array([0.0, 1.5]), n_boot=5, random_=True)
bad("curve_summary_table", cl.curve_summary_table, lambda: pred_tbl(), YB(), lambda: {"AUC": pc.roc_curve, "late": late_boom(3)(pc.prg_curve)}, "a", n_boot=5, random_=True)
bad("summary_table", cl.summary_table, lambda: pred_tbl(), YB(), lambda: {"NLL": cl.log_loss, "bad": boom}, CUR, "a", n_boot=5, random_=True)
for f in (pc.roc_curve, pc.recall_precision_curve, pc.prg_curve):
    bad(f.__name__ + " weight", f, B(1, 0, 1), S(3, 1, 2), lambda: np.array([[1.0, 0.0, 1.0]]))
    bad(f.__name__ + " nan", f, B(1, 0, 1), S(3, NAN, 2))
for step_ in ("fit", "predict"):
    bad("get_pred_log_prob " + step_, cl.get_pred_log_prob, Xa(), YB(8), Xa(5), 2, lambda step_=step_: {"iid": cl.JustNoise(2, 1.0), "bad": BadModel(step_)})
    bad("get_gauss_pred " + step_, rg.get_gauss_pred, Xa(), F(8), Xa(5), lambda step_=step_: {"iid": rg.JustNoise(), "bad": BadModel(step_)})
bad("classification.just_benchmark", cl.just_benchmark, Xa(), YB(8), Xa(6), YB(6), 2, lambda: {"iid": cl.JustNoise(2, 1.0), "bad": BadModel("predict")}, STD, CUR, "iid")
bad("regression.just_benchmark", rg.just_benchmark, Xa(), F(8), Xa(6), F(6, 3), RM, lambda: {"MSE": rg.square_loss, "bad": boom}, "iid")
bad("regression.loss_table", rg.loss_table, lambda: gauss_tbl() - 5.0, F(5), lambda: dict(rg.STD_REGR_LOSS))
bad("split_df key", ds.split_df, DFR, lambda: {"t": ("ordered", 0.5), "zz": ("linear", 0.5)})
bad("split_df rule", ds.split_df, DFR, lambda: {"t": ("ordered", 0.5), "v": ("odd", 0.5)})
bad("split_df frac", ds.split_df, DFR, lambda: {"t": ("ordered", 0.5), "v": ("linear", 1.5)})
bad("random_split_series", ds.random_split_series, SER, 1.5)
bad("build_lag_df", ds.build_lag_df, DFR, 3, features=lambda: ["zz"])
bad("one_hot", ut.one_hot, lambda: np.array([0, 3]), 3)
bad("epsilon_noise", ut.epsilon_noise, A(0.0, INF))
bad("area nan", ut.area, lambda: np.array([[0.0, 0.5, 1.0]]), lambda: np.array([[INF, -INF, 1.0]]), "previous")
bad("area kind", ut.area, lambda: np.array([[0.0, 0.5, 1.0]]), lambda: np.array([[0.0, 1.0, 4.0]]), "cubic")
bad("interp outside", ut.interp1d, A(-1.0, 0.5), A(0.0, 1.0), A(5.0, 4.0), kind="previous")
bad("interp kind", ut.interp1d, A(0.0, 0.5), A(0.0, 1.0), A(5.0, 4.0), kind="next")
bad("eval_step_func", ut.eval_step_func, A(0.0, 0.5), A(1.0, 1.0), A(5.0, 4.0))
