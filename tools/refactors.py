"""Edits that keep the behaviour (development aid, read by no check).

refactors.py make A|B DIR [module..]   copy /repo to DIR and apply the edits
Then: VERIF_REPO=DIR run the checks; all of them must stay quiet.
"""
import os
import re
import shutil
import subprocess
import sys

R = []


def r(mod, old, new):
    R.append((mod, old, new))


# ---------------------------------------------------------------- util
r("util", '''    y_bin = np.zeros((N, n_labels), dtype=bool)
    y_bin[range(N), y] = True
    return y_bin
''', '''    y_bin = y[:, None] == np.arange(n_labels)[None, :]
    assert y_bin.shape == (N, n_labels)
    return y_bin
''')
r("util", '''    normalizer = logsumexp(log_pred_prob, axis=1, keepdims=True)
    log_pred_prob = log_pred_prob - normalizer
    return log_pred_prob
''', '''    return log_pred_prob - _log_normalizer(log_pred_prob)[:, None]


def _log_normalizer(log_pred_prob):
    """Log of the total mass of each row."""
    return logsumexp(log_pred_prob, axis=1)
''')
r("util", '''    delta = np.minimum(max_epsilon, delta)
    assert 0.0 < delta and delta <= max_epsilon
    x = x + delta * (np.random.rand(len(x)) - 0.5)
    return x
''', '''    delta = min(max_epsilon, delta)
    assert 0.0 < delta <= max_epsilon
    n_samples = len(x)
    noise = np.random.rand(n_samples) - 0.5
    return x + noise * delta
''')
r("util", '''    idx = [] if xp.size == 0 else np.concatenate((xp[:-1] < xp[1:], [True]))
    xp = xp[idx]
    yp = None if yp is None else yp[idx]
    return xp, yp
''', '''    last = np.ones(xp.size, dtype=bool)
    last[:-1] = xp[:-1] != xp[1:]
    if yp is not None:
        yp = yp[last]
    return xp[last], yp
''')
r("util", '''    for ii in range(1, len(x)):
        x[ii] = np.maximum(np.nextafter(x[ii - 1], x.dtype.type(np.inf)), x[ii])
''', '''    top = x.dtype.type(np.inf)
    for ii in range(len(x) - 1):
        if not (x[ii + 1] > x[ii]):
            x[ii + 1] = np.nextafter(x[ii], top)
''')
r("util", '''    if not assume_sorted:
        idx = np.argsort(xp)
        xp, yp = xp[idx], yp[idx]

    # Step function''', '''    if not assume_sorted:
        order = np.argsort(xp, kind="mergesort")
        yp = yp[order]
        xp = xp[order]

    # Step function''')
r("util", '''    idx = np.searchsorted(xp, x_grid, side="right") - 1
    y_grid = yp[idx]
    return y_grid
''', '''    n_steps = np.searchsorted(xp, x_grid, side="right")
    return np.take(yp, n_steps - 1)
''')
r("util", '''            auc = np.nansum(y_curve[:, :-1] * np.diff(x_curve, axis=1), axis=1)
''', '''            rectangles = (x_curve[:, 1:] - x_curve[:, :-1]) * y_curve[:, :-1]
            auc = np.nansum(rectangles, axis=1)
''')
r("util", '''        auc = np.trapz(y_curve, x_curve, axis=1)
''', '''        width = np.diff(x_curve, axis=1)
        auc = np.sum(0.5 * (y_curve[:, 1:] + y_curve[:, :-1]) * width, axis=1)
''')
# ---------------------------------------------------------------- boot_util
r("boot_util", '''    p_BS = np.ones(N) / N
    weight = np.maximum(epsilon, np.random.multinomial(N, p_BS, size=n_boot))
''', '''    counts = np.random.multinomial(N, np.full(N, 1.0 / N), size=(n_boot,))
    weight = np.maximum(counts, epsilon)
''')
r("boot_util", '''    LB = np.percentile(boot_estimates, LB_perc, axis=0, interpolation="lower")
    UB = np.percentile(boot_estimates, UB_perc, axis=0, interpolation="higher")
''', '''    def quantile(perc, side):
        return np.percentile(boot_estimates, perc, axis=0, interpolation=side)

    UB = quantile(UB_perc, "higher")
    LB = quantile(LB_perc, "lower")
''')
r("boot_util", '''    LB, UB = 2 * original_estimate - UB, 2 * original_estimate - LB
    return LB, UB
''', '''    return original_estimate + (original_estimate - UB), original_estimate + (original_estimate - LB)
''')
r("boot_util", '''    EB = np.fmax(UB - original_estimate, original_estimate - LB)
''', '''    above, below = UB - original_estimate, original_estimate - LB
    EB = np.fmax(below, above)
''')
r("boot_util", '''    pval = 2.0 * np.minimum(np.mean(boot_estimates <= ref), np.mean(ref <= boot_estimates))
    # Only needed when some boot_estimates == ref exactly:
    pval = np.minimum(1.0, pval)
    return pval
''', '''    n_boot = len(boot_estimates)
    n_below = np.count_nonzero(boot_estimates <= ref)
    n_above = np.count_nonzero(boot_estimates >= ref)
    # Capping only needed when some boot_estimates == ref exactly:
    return min(1.0, 2.0 * min(n_below, n_above) / n_boot)
''')
# ---------------------------------------------------------------- perf_curves
r("perf_curves", '''    distinct_value_indices = np.where(np.diff(y_score))[0]
    threshold_idxs = np.r_[distinct_value_indices, y_true.size - 1]
''', '''    is_last = np.append(y_score[:-1] != y_score[1:], True)
    threshold_idxs = np.flatnonzero(is_last)
''')
r("perf_curves", '''        tps = np.cumsum(y_true[None, :] * weight, axis=1)[:, threshold_idxs]
        fps = np.cumsum(weight, axis=1)[:, threshold_idxs] - tps
''', '''        total = np.cumsum(weight, axis=1)[:, threshold_idxs]
        tps = np.cumsum(np.where(y_true, weight, 0), axis=1)[:, threshold_idxs]
        fps = total - tps
''')
r("perf_curves", '''    zero_vec = np.zeros((fps.shape[0], 1), dtype=fps.dtype)
    fps, tps = np.c_[zero_vec, fps], np.c_[zero_vec, tps]
    thresholds = np.r_[np.inf, y_score[threshold_idxs]]
''', '''    fps = _prepend_zero(fps)
    tps = _prepend_zero(tps)
    thresholds = np.concatenate(([np.inf], y_score[threshold_idxs]))
''')
r("perf_curves", '''def _binary_clf_curve(''', '''def _prepend_zero(counts):
    zero_vec = np.zeros((counts.shape[0], 1), dtype=counts.dtype)
    return np.concatenate((zero_vec, counts), axis=1)


def _binary_clf_curve(''')
r("perf_curves", '''    fpr = np.true_divide(fps, fps[:, -1:])
    tpr = np.true_divide(tps, tps[:, -1:])
    return (fpr, tpr, LINEAR), thresholds
''', '''    fpr, tpr = (np.true_divide(counts, counts[:, -1][:, None]) for counts in (fps, tps))
    return (fpr, tpr, LINEAR), thresholds
''')
r("perf_curves", '''    with np.errstate(divide="ignore", invalid="ignore"):
        precision = np.true_divide(tps, tps + fps)
    precision[:, 0] = precision[:, 1]
''', '''    precision = np.empty(tps.shape)
    precision[:, 1:] = np.true_divide(tps[:, 1:], tps[:, 1:] + fps[:, 1:])
    precision[:, 0] = precision[:, 1]
''')
# ---------------------------------------------------------------- data_splitter
r("data_splitter", '''    keys = [SFT_FMT % nn for nn in range(n_lags)]
    D = [df] + [df_sub.shift(stride * nn) for nn in range(1, n_lags)]

    df = pd.concat(D, axis=1, keys=keys, names=["lag"])
''', '''    D, keys = [df], [SFT_FMT % 0]
    for nn in range(1, n_lags):
        D.append(df_sub.shift(nn * stride))
        keys.append(SFT_FMT % nn)
    df = pd.concat(D, axis=1, keys=keys, names=["lag"])
''')
r("data_splitter", '''    pos = rand_subset(range(n_samples), frac)
    mask = np.zeros(n_samples, dtype=bool)
    mask[pos] = True
''', '''    pos = rand_subset(np.arange(n_samples), frac)
    mask = np.in1d(np.arange(n_samples), pos)
''')
r("data_splitter", '''    if assume_sorted and assume_unique:
        all_cases = S.values
    elif assume_unique:  # but not sorted
        all_cases = np.sort(S.values)
    else:
        all_cases = np.unique(S.values)
''', '''    all_cases = S.values
    if not assume_unique:
        all_cases = np.unique(all_cases)
    elif not assume_sorted:
        all_cases = np.sort(all_cases)
''')
r("data_splitter", '''    if assume_sorted:
        start, end = S.values[0], S.values[-1]
    else:
        start, end = np.min(S.values), np.max(S.values)
''', '''    values = S.values
    start = values[0] if assume_sorted else values.min()
    end = values[-1] if assume_sorted else values.max()
''')
r("data_splitter", '''    train_series = pd.Series(index=df.index, data=True)
    test_series = pd.Series(index=df.index, data=True)
    for feature, how in splits.items():
        split_type, frac = how
''', '''    train_series = np.ones(len(df), dtype=bool)
    test_series = np.ones(len(df), dtype=bool)
    for feature, (split_type, frac) in splits.items():
''')
r("data_splitter", '''        train_series &= train_curr
        test_series &= ~train_curr
''', '''        train_curr = train_curr.values
        train_series = train_series & train_curr
        test_series = test_series & ~train_curr
''')
# ---------------------------------------------------------------- regression
r("regression", '''    y = np.asarray(y, dtype=float)  # narrow or unsigned ints would wrap around
    loss = (y - mu) ** 2
    return loss
''', '''    resid = np.asarray(y, dtype=float) - mu  # narrow or unsigned ints would wrap around
    return resid * resid
''')
r("regression", '''    loss = -ss.norm.logpdf(y, loc=mu, scale=std)
    return loss
''', '''    z = (y - mu) / std
    return 0.5 * z ** 2 + np.log(std) + 0.5 * np.log(2.0 * np.pi)
''')
r("regression", '''    for method in methods:
        # These get validated inside loss function
        mu = pred_tbl[(method, "mu")].values
        std = pred_tbl[(method, "std")].values
        for metric, metric_f in metrics_dict.items():
            loss_tbl.loc[:, (metric, method)] = metric_f(y, mu, std)
''', '''    for metric, metric_f in metrics_dict.items():
        for method in methods:
            # These get validated inside loss function
            mu, std = (pred_tbl[(method, moment)].values for moment in ("mu", "std"))
            loss_tbl.loc[:, (metric, method)] = metric_f(y, mu, std)
''')
r("regression", '''        mu = np.repeat([self.mu], N, axis=0)
        std = np.repeat([self.std], N, axis=0)
        return mu, std
''', '''        return np.full(N, self.mu), np.full(N, self.std)
''')
r("regression", '''    @memory.cache
    def train_predict(method_obj, X_train, y_train, X_test):
        method_obj.fit(X_train, y_train)
        try:
            mu, std = method_obj.predict(X_test, return_std=True)
        except TypeError:
            mu = method_obj.predict(X_test)
            std = np.ones_like(mu)
        return mu, std

''', '''    train_predict = memory.cache(_train_predict)
''')
r("regression", '''def get_gauss_pred(''', '''def _train_predict(method_obj, X_train, y_train, X_test):
    method_obj.fit(X_train, y_train)
    try:
        mu, std = method_obj.predict(X_test, return_std=True)
    except TypeError:
        mu = method_obj.predict(X_test)
        std = np.ones_like(mu)
    return mu, std


def get_gauss_pred(''')
# ---------------------------------------------------------------- mlpaper
r("mlpaper", '''    EB = 0.5 * ss.sem(x) * (UB - LB)
''', '''    half_width = 0.5 * (UB - LB)
    EB = half_width * ss.sem(x)
''')
r("mlpaper", '''    B = np.max(coef_roots) ** 2  # Bernstein test statistic
''', '''    root = coef_roots.max()
    B = root * root  # Bernstein test statistic
''')
r("mlpaper", '''    EB = np.std(x, ddof=0) * np.sqrt((2.0 * A) / N) + (3.0 * A * range_) / N
''', '''    scale_term = np.std(x, ddof=0) * np.sqrt(2.0 * A / N)
    range_term = 3.0 * A * range_ / N
    EB = scale_term + range_term
''')
r("mlpaper", '''    mu_boot = np.mean(x * weight, axis=1)
''', '''    mu_boot = np.sum(weight * x[None, :], axis=1) / N
''')
r("mlpaper", '''    if method == "t":
        EB = t_EB(x, confidence=confidence)
        pval = t_test(x)
    elif method == "bernstein":
        EB = bernstein_EB(x, lower, upper, confidence=confidence)
        pval = bernstein_test(x, lower, upper)
    elif method == "boot":
        EB, pval, _ = _boot_EB_and_test(x, confidence=confidence)
    else:
        assert False
''', '''    assert method in ("t", "bernstein", "boot")
    if method == "boot":
        EB, pval, _ = _boot_EB_and_test(x, confidence=confidence)
    elif method == "bernstein":
        pval = bernstein_test(x, lower, upper)
        EB = bernstein_EB(x, lower, upper, confidence=confidence)
    else:
        pval, EB = t_test(x), t_EB(x, confidence=confidence)
''')
r("mlpaper", '''    for metric in metrics:
        lower, upper = limits.get(metric, (-np.inf, np.inf))
        assert lower <= upper

        loss_ref = loss_table.loc[:, (metric, ref_method)].values
        assert loss_ref.ndim == 1  # Weird stuff happens if names not unique
        assert not np.any(np.isnan(loss_ref))  # Would let method cheat
        assert np.all(lower <= loss_ref) and np.all(loss_ref <= upper)
        for method in methods:
            loss = loss_table.loc[:, (metric, method)].values
            assert loss.ndim == 1  # Weird stuff happens if names not unique
            assert not np.any(np.isnan(loss))  # Would let method cheat
            assert np.all(lower <= loss) and np.all(loss <= upper)
''', '''    for metric in metrics:
        lower, upper = limits[metric] if metric in limits else (-np.inf, np.inf)
        assert lower <= upper

        loss_ref = _get_loss(loss_table, metric, ref_method, lower, upper)
        for method in methods:
            loss = _get_loss(loss_table, metric, method, lower, upper)
''')
r("mlpaper", '''def loss_summary_table(loss_table''', '''def _get_loss(loss_table, metric, method, lower, upper):
    loss = loss_table[(metric, method)].values
    assert loss.ndim == 1  # Weird stuff happens if names not unique
    assert not np.any(np.isnan(loss))  # Would let method cheat
    assert np.all((lower <= loss) & (loss <= upper))
    return loss


def loss_summary_table(loss_table''')
r("mlpaper", '''            self_comparison = method == ref_method
            EB, pval = np.nan, np.nan
            if pairwise_CI:
                if not self_comparison:  # Otherwise leave both as nan
                    _, EB, pval = get_mean_EB_test(deltas, confidence, lower=-range_, upper=range_, method=method_EB)
            else:
                mu_, EB = get_mean_and_EB(loss, confidence=confidence, lower=lower, upper=upper, method=method_EB)
                assert mu_ == mu
                if not self_comparison:  # Otherwise pval as nan
                    pval = get_test(deltas, lower=-range_, upper=range_, method=method_EB)
''', '''            is_ref = method == ref_method
            EB, pval = np.nan, np.nan
            if not pairwise_CI:
                mu_, EB = get_mean_and_EB(loss, confidence=confidence, lower=lower, upper=upper, method=method_EB)
                assert mu_ == mu
                if not is_ref:
                    pval = get_test(deltas, lower=-range_, upper=range_, method=method_EB)
            elif not is_ref:
                _, EB, pval = get_mean_EB_test(deltas, confidence, lower=-range_, upper=range_, method=method_EB)
''')
# ---------------------------------------------------------------- classification
r("classification", '''    pred_prob = np.exp(log_pred_prob)
    E_loss = np.dot(pred_prob, loss_mat)
    action = np.argmin(E_loss, axis=1)
    return action
''', '''    return (np.exp(log_pred_prob) @ loss_mat).argmin(axis=1)
''')
r("classification", '''    nll = -log_pred_prob[np.arange(n_samples), y.astype(int)]
    return nll
''', '''    return -_true_label_log_prob(y, log_pred_prob)


def _true_label_log_prob(y, log_pred_prob):
    return np.take_along_axis(log_pred_prob, y.astype(int)[:, None], axis=1)[:, 0]
''')
r("classification", '''    y_bin = one_hot(y.astype(int), n_labels)
    loss = np.sum((np.exp(log_pred_prob) - y_bin) ** 2, axis=1)
    if rescale and n_labels > 1:
        # Linearly rescale so perfect is 0.0 and uniform gives 1.0
        loss = np.true_divide(n_labels, n_labels - 1) * loss
    return loss
''', '''    diff = np.exp(log_pred_prob) - one_hot(y.astype(int), n_labels)
    loss = np.einsum("ij,ij->i", diff, diff)
    if not rescale or n_labels == 1:
        return loss
    # Linearly rescale so perfect is 0.0 and uniform gives 1.0
    return loss * n_labels / (n_labels - 1.0)
''')
r("classification", '''    log_normalizer = 0.5 * logsumexp(2.0 * log_pred_prob, axis=1)
    # Need to do negative of spherical score to make a loss function
    loss = -np.exp(log_pred_prob[np.arange(N), y.astype(int)] - log_normalizer)
''', '''    pred_prob = np.exp(log_pred_prob)
    norm = np.sqrt(np.sum(pred_prob ** 2, axis=1))
    # Need to do negative of spherical score to make a loss function
    loss = -pred_prob[np.arange(N), y.astype(int)] / norm
''')
r("classification", '''        for metric, metric_f in metrics_dict.items():
            loss_tbl.loc[:, (metric, method)] = metric_f(y, log_pred_prob)
    return loss_tbl
''', '''        for metric in metrics_dict:
            loss_tbl[(metric, method)] = metrics_dict[metric](y, log_pred_prob)
    return loss_tbl
''')
r("classification", '''    # Setup boot strap weights
    weight = bu.boot_weights(N, n_boot, epsilon=epsilon)
''', '')
r("classification", '''    # Put everything into a vector of right type for binary classification
    y = y.astype(bool)
    log_pred_prob = log_pred_prob[:, pos_label]
''', '''    # Setup boot strap weights
    weight = bu.boot_weights(N, n_boot, epsilon=epsilon)

    # Put everything into a vector of right type for binary classification
    log_pred_prob = log_pred_prob[:, pos_label]
    y = y == 1
''')
r("classification", '''            curve_summary, curr_curve = R
            curve_tbl.loc[method, curve_name] = curve_summary
            if pairwise_CI and method == ref_method:
                curve_tbl.loc[method, (curve_name, ERR_COL)] = np.nan
            if method == ref_method:  # NaN probably makes more sense than 1
                curve_tbl.loc[method, (curve_name, PVAL_COL)] = np.nan
            curve_dump[(method, curve_name)] = curr_curve
''', '''            (auc, EB, pval), curve_dump[(method, curve_name)] = R
            if method == ref_method:  # NaN probably makes more sense than 1
                pval = np.nan
                EB = np.nan if pairwise_CI else EB
            curve_tbl.loc[method, curve_name] = (auc, EB, pval)
''')
r("classification", '''    # Do the curve metrics
    curve_summary, dump_tbl = curve_summary_table(
        log_pred_prob_table,
        y,
        curve_dict,
        ref_method,
        x_grid=x_grid,
        n_boot=n_boot,
        pairwise_CI=pairwise_CI,
        confidence=confidence,
    )

''', '''    common = {"pairwise_CI": pairwise_CI, "confidence": confidence}
    # Do the curve metrics
    curve_summary, dump_tbl = curve_summary_table(
        log_pred_prob_table, y, curve_dict, ref_method, x_grid=x_grid, n_boot=n_boot, **common
    )

''')
r("classification", '''        counts = self.pseudo_count + np.sum(one_hot(y_train.astype(int), n_labels), axis=0)
        n_total = n_points + n_labels * self.pseudo_count
        self.pred = np.log(counts / n_total)
''', '''        counts = np.bincount(y_train.astype(int), minlength=n_labels) + self.pseudo_count
        self.pred = np.log(counts / np.sum(counts))
''')
r("classification", '''        pred_log_prob = np.repeat([self.pred], n_samples, axis=0)
        return pred_log_prob
''', '''        return np.tile(self.pred, (n_samples, 1))
''')
r("classification", '''        try:
            pred_log_prob = method_obj.predict_log_proba(X_test)
        except Exception:  # If there is no log proba available
            with np.errstate(divide="ignore"):  # Not unusual to have some p=0 cases
                pred_log_prob = np.log(method_obj.predict_proba(X_test))
        return pred_log_prob
''', '''        try:
            return method_obj.predict_log_proba(X_test)
        except Exception:  # If there is no log proba available
            pass
        pred_prob = method_obj.predict_proba(X_test)
        with np.errstate(divide="ignore"):  # Not unusual to have some p=0 cases
            return np.log(pred_prob)
''')
r("classification", '''        pred_log_prob = normalize(np.maximum(min_log_prob, pred_log_prob))
        log_pred_prob_table.loc[:, method_name] = pred_log_prob
''', '''        floored = np.maximum(pred_log_prob, min_log_prob)
        normed = normalize(floored)
        for label in range(n_labels):
            log_pred_prob_table[(method_name, label)] = normed[:, label]
''')
# ---------------------------------------------------------------- sciprint
r("sciprint", '''    y = (x // mod) * mod
    return y
''', '''    return x - x % mod
''')
r("sciprint", '''    str_len = len(remove_chars(x_str, ",."))
    return str_len
''', '''    return sum(1 for c in x_str if c not in ",.")
''')
r("sciprint", '''    with decimal.localcontext() as ctx:
        ctx.prec = digits
        ctx.rounding = rounding
        y = +decimal.Decimal(x)
    return y
''', '''    ctx = decimal.Context(prec=digits, rounding=rounding)
    return ctx.plus(decimal.Decimal(x))
''')
r("sciprint", '''            EB = EB if EB.is_nan() or EB <= EB_clip else D_INF
''', '''            if not EB.is_nan() and EB > EB_clip:
                EB = D_INF
''')
r("sciprint", '''    # First check the clipped case
    if (not mu.is_nan()) and max_clip < mu:  # above max
        assert max_clip.is_finite()
        return above_fmt.format(max_clip.scaleb(shift, context=EXACT_CONTEXT))
    if (not mu.is_nan()) and mu < min_clip:  # below min
        assert min_clip.is_finite()
        return below_fmt.format(min_clip.scaleb(shift, context=EXACT_CONTEXT))
''', '''    # First check the clipped case
    if not mu.is_nan():
        for is_out, clip, fmt in ((mu < min_clip, min_clip, below_fmt), (mu > max_clip, max_clip, above_fmt)):
            if is_out:
                assert clip.is_finite()
                return fmt.format(clip.scaleb(shift, context=EXACT_CONTEXT))
''')
r("sciprint", '''    L = np.array(range(min_shift, max_shift + 1))
    idx = np.argsort(np.abs(L))
    L = L[idx]

''', '''    L = sorted(range(min_shift, max_shift + 1), key=abs)

''')
r("sciprint", '''    max_right = max(len(ss) - find_last_dig(ss) for ss in num_str_list)
    L = [ss + pad * (max_right - (len(ss) - find_last_dig(ss))) for ss in num_str_list]
    return L
''', '''    right = [len(ss) - find_last_dig(ss) for ss in num_str_list]
    n_max = max(right)
    return [ss + pad * (n_max - nn) for ss, nn in zip(num_str_list, right)]
''')
r("sciprint", '''            mu, EB = mean_series[method], err_series[method]
            estimate_str = print_estimate(mu, EB, best_shift, min_clip, max_clip, non_finite_fmt=non_finite_fmt)
            perf_tbl_str.loc[method, (metric, EST_COL)] = estimate_str
''', '''            perf_tbl_str.loc[method, (metric, EST_COL)] = print_estimate(
                mean_series[method],
                err_series[method],
                shift=best_shift,
                min_clip=min_clip,
                max_clip=max_clip,
                non_finite_fmt=non_finite_fmt,
            )
''')
r("sciprint", '''            if shift != 0:
                new_headers[nn] = fmt_shift % (metric_str, shift)
            else:
                new_headers[nn] = metric_str
''', '''            new_headers[nn] = metric_str if shift == 0 else fmt_shift % (metric_str, shift)
''')


A, R = R, []
# ======================================================== second set
r("util", '''    assert y.dtype.kind == "i"  # bool would confuse np indexing
    assert np.all(0 <= y) and np.all(y < n_labels)
    y_bin = np.zeros((N, n_labels), dtype=bool)
    y_bin[range(N), y] = True
    return y_bin
''', '''    assert y.dtype.kind == "i"  # bool would confuse np indexing
    if N > 0:
        assert 0 <= y.min() and y.max() < n_labels
    return np.eye(n_labels, dtype=bool)[y]
''')
r("util", '''    normalizer = logsumexp(log_pred_prob, axis=1, keepdims=True)
    log_pred_prob = log_pred_prob - normalizer
    return log_pred_prob
''', '''    peak = np.max(log_pred_prob, axis=1, keepdims=True)
    peak = np.where(np.isfinite(peak), peak, 0.0)
    with np.errstate(divide="ignore"):
        total = np.log(np.sum(np.exp(log_pred_prob - peak), axis=1, keepdims=True))
    return (log_pred_prob - peak) - total
''')
r("util", '''    x = x + delta * (np.random.rand(len(x)) - 0.5)
    return x
''', '''    return x + delta * np.random.uniform(-0.5, 0.5, size=x.shape)
''')
r("util", '''    idx = [] if xp.size == 0 else np.concatenate((xp[:-1] < xp[1:], [True]))
    xp = xp[idx]
    yp = None if yp is None else yp[idx]
    return xp, yp
''', '''    _, first = np.unique(xp[::-1], return_index=True)
    idx = xp.size - 1 - first
    return xp[idx], (None if yp is None else yp[idx])
''')
r("util", '''            auc = np.nansum(y_curve[:, :-1] * np.diff(x_curve, axis=1), axis=1)
''', '''            auc = np.array([np.nansum(yy[:-1] * np.diff(xx)) for xx, yy in zip(x_curve, y_curve)])
''')
r("boot_util", '''    p_BS = np.ones(N) / N
    weight = np.maximum(epsilon, np.random.multinomial(N, p_BS, size=n_boot))
''', '''    p_BS = np.ones(N) / N
    weight = np.array([np.maximum(epsilon, np.random.multinomial(N, p_BS)) for _ in range(n_boot)])
''')
r("boot_util", '''    pval = 2.0 * np.minimum(np.mean(boot_estimates <= ref), np.mean(ref <= boot_estimates))
''', '''    frac_above = np.mean(boot_estimates >= ref)
    frac_below = np.mean(boot_estimates <= ref)
    pval = 2.0 * np.minimum(frac_below, frac_above)
''')
r("boot_util", '''    alpha = 0.5 * (1.0 - confidence)
    LB, UB = 100.0 * alpha, 100.0 * (1.0 - alpha)
    return LB, UB
''', '''    tail = (1.0 - confidence) / 2.0
    return tail * 100.0, (1.0 - tail) * 100.0
''')
r("perf_curves", '''        tps = np.cumsum(y_true[None, :] * weight, axis=1)[:, threshold_idxs]
        fps = np.cumsum(weight, axis=1)[:, threshold_idxs] - tps
''', '''        tps = np.cumsum(weight * y_true, axis=1)[:, threshold_idxs]
        fps = np.cumsum(weight * ~y_true, axis=1)[:, threshold_idxs]
''')
r("perf_curves", '''    if np.any(fps_fix) or np.any(tps_fix):
        fps, tps = fps.astype(float), tps.astype(float)
        fps[fps_fix, :] = EPSILON * tps[fps_fix, :]
        tps[tps_fix, :] = EPSILON * fps[tps_fix, :]
    return fps, tps
''', '''    if not (fps_fix.any() or tps_fix.any()):
        return fps, tps
    fps, tps = fps * 1.0, tps * 1.0
    fps = np.where(fps_fix[:, None], EPSILON * tps, fps)
    tps = np.where(tps_fix[:, None], EPSILON * fps, tps)
    return fps, tps
''')
r("perf_curves", '''    den = n_neg * tps
    with np.errstate(divide="ignore", invalid="ignore"):
        rec_gain = 1.0 - np.true_divide(n_pos * fns, den)
        prec_gain = 1.0 - np.true_divide(n_pos * fps, den)
''', '''    odds = np.true_divide(n_pos, n_neg)
    with np.errstate(divide="ignore", invalid="ignore"):
        prec_gain = 1.0 - odds * np.true_divide(fps, tps)
        rec_gain = 1.0 - odds * np.true_divide(fns, tps)
''')
r("data_splitter", '''    L = np.random.choice(x, N, replace=False)
''', '''    L = np.asarray(x)[np.random.permutation(len(x))[:N]]
''')
r("data_splitter", '''        train_cases = rand_subset(S.unique(), frac)
        train_curr = S.isin(train_cases)
''', '''        cases = pd.unique(S)
        train_curr = S.isin(rand_subset(cases, frac))
''')
r("data_splitter", '''    pivotal_point = (1.0 - frac) * start + frac * end
    # For numerics:
    pivotal_point = np.maximum(start, np.minimum(pivotal_point, end))
''', '''    # Clip for numerics:
    pivotal_point = np.clip(frac * end + (1.0 - frac) * start, start, end)
''')
r("data_splitter", '''        train_series &= train_curr
        test_series &= ~train_curr
    assert not (train_series & test_series).any()
    df_train, df_test = df[train_series], df[test_series]
    df_unused = df[~(train_series | test_series)]
''', '''        train_series = train_series & train_curr
        test_series = ~(~test_series | train_curr)
    assert not (train_series & test_series).any()
    is_train, is_test = train_series.values, test_series.values
    df_train, df_test, df_unused = [df.loc[mask] for mask in (is_train, is_test, ~is_train & ~is_test)]
''')
r("regression", '''    n_samples, = y.shape
    assert n_samples >= 1
    assert np.all(np.isfinite(y))

    assert mu.shape == (n_samples,) and std.shape == (n_samples,)
    assert np.all(np.isfinite(mu)) and np.all(np.isfinite(std))
    assert np.all(std > 0.0)
    return n_samples
''', '''    n_samples, = y.shape
    assert n_samples >= 1
    for v in (y, mu, std):
        assert v.shape == (n_samples,)
        assert np.isfinite(v).all()
    if not (std > 0.0).all():
        raise ValueError("std must be positive")
    return n_samples
''')
r("regression", '''    col_names = pd.MultiIndex.from_product([methods.keys(), ("mu", "std")], names=[METHOD, MOMENT])
    pred_tbl = pd.DataFrame(index=range(n_test), columns=col_names, dtype=float)
''', '''    col_names = pd.MultiIndex.from_product([list(methods), ["mu", "std"]], names=[METHOD, MOMENT])
    pred_tbl = pd.DataFrame(np.nan, index=range(n_test), columns=col_names)
''')
r("regression", '''        std = np.maximum(min_std, std)
        pred_tbl.loc[:, (method_name, "mu")] = mu
        pred_tbl.loc[:, (method_name, "std")] = std
''', '''        pred_tbl[(method_name, "std")] = np.where(std < min_std, min_std, std)
        pred_tbl[(method_name, "mu")] = mu
''')
r("mlpaper", '''    LB, UB = ss.t.interval(confidence, N - 1, loc=0.0, scale=1.0)
    assert not (LB > UB)
    # Just multiplying scale=ss.sem(x) is better for when scale=0
    EB = 0.5 * ss.sem(x) * (UB - LB)
''', '''    EB = ss.sem(x) * ss.t.ppf(0.5 * (1.0 + confidence), N - 1)
''')
r("mlpaper", '''    with np.errstate(invalid="ignore"):  # expect non-finite here
        EB_trivial = np.fmax(upper - mu, mu - lower)
    # mu unknown (NaN) ==> there is no trivial error bar to clip to
    EB_trivial = np.inf if np.isnan(EB_trivial) else EB_trivial
''', '''    EB_trivial = _cover(mu, lower, upper)
''')
r("mlpaper", '''def clip_EB(''', '''def _cover(mu, lower, upper):
    with np.errstate(invalid="ignore"):  # expect non-finite here
        above, below = upper - mu, mu - lower
    if np.isnan(above) and np.isnan(below):
        return np.inf  # mu unknown (NaN) ==> there is no trivial error bar to clip to
    return np.nanmax((above, below))


def clip_EB(''')
r("mlpaper", '''    if method == "t":
        pval = t_test(x)
    elif method == "bernstein":
        pval = bernstein_test(x, lower, upper)
    elif method == "boot":
        pval = boot_test(x)
    else:
        assert False
    return pval
''', '''    tests = {"t": t_test, "boot": boot_test, "bernstein": lambda xx: bernstein_test(xx, lower, upper)}
    assert method in tests
    return tests[method](x)
''')
r("mlpaper", '''            deltas = np.subtract(loss, loss_ref, dtype=float)
''', '''            deltas = loss.astype(float) - loss_ref.astype(float)
''')
r("mlpaper", '''            perf_tbl.loc[method, metric] = (mu, EB, pval)
''', '''            for stat, value in zip(STD_STATS, (mu, EB, pval)):
                perf_tbl.loc[method, (metric, stat)] = value
''')
r("classification", '''    E_loss = np.dot(pred_prob, loss_mat)
    action = np.argmin(E_loss, axis=1)
    return action
''', '''    E_loss = np.einsum("ij,jk->ik", pred_prob, loss_mat)
    return np.argmin(E_loss, axis=1)
''')
r("classification", '''    loss = loss_mat[y.astype(int), action]
    assert loss.shape == (n_samples,)
    return loss
''', '''    return np.array([loss_mat[yy, aa] for yy, aa in zip(y.astype(int), action)])
''')
r("classification", '''        c = 1.0 - 1.0 / np.sqrt(n_labels) if n_labels > 1 else 1.0
        loss = (1.0 + loss) / c
''', '''        worst = 1.0 / np.sqrt(n_labels)
        loss = 1.0 + loss
        if n_labels > 1:
            loss = loss / (1.0 - worst)
''')
r("classification", '''    col_names = pd.MultiIndex.from_product([metrics_dict.keys(), methods], names=[METRIC, METHOD])
    loss_tbl = pd.DataFrame(index=log_pred_prob_table.index, columns=col_names, dtype=float)
    for method in methods:
''', '''    col_names = pd.MultiIndex.from_product([list(metrics_dict), methods], names=[METRIC, METHOD])
    columns = {}
    for method in methods:
''')
r("classification", '''        for metric, metric_f in metrics_dict.items():
            loss_tbl.loc[:, (metric, method)] = metric_f(y, log_pred_prob)
    return loss_tbl
''', '''        columns.update({(metric, method): metric_f(y, log_pred_prob) for metric, metric_f in metrics_dict.items()})
    values = np.stack([np.asarray(columns[c], dtype=float) for c in col_names], axis=1)
    return pd.DataFrame(values, index=log_pred_prob_table.index, columns=col_names)
''')
r("classification", '''    EB = (
        bu.error_bar(auc_boot - ref_boot, auc - ref, confidence=confidence)
        if pairwise_CI
        else bu.error_bar(auc_boot, auc, confidence=confidence)
    )
    pval = bu.significance(auc_boot, ref_boot)
    summary = (auc, EB, pval)
''', '''    pval = bu.significance(auc_boot, ref_boot)
    if pairwise_CI:
        EB = bu.error_bar(auc_boot - ref_boot, auc - ref, confidence=confidence)
    else:
        EB = bu.error_bar(auc_boot, auc, confidence=confidence)
    summary = (auc, EB, pval)
''')
r("classification", '''    curve = pd.DataFrame(
        data=np.stack((x_grid, y_grid, y_LB, y_UB), axis=1), index=range(x_grid.size), columns=CURVE_STATS, dtype=float
    )
    return summary, curve
''', '''    curve = pd.DataFrame(dict(zip(CURVE_STATS, (x_grid, y_grid, y_LB, y_UB))), columns=CURVE_STATS, dtype=float)
    return summary, curve
''')
r("classification", '''    @memory.cache
    def train_predict(method_obj, X_train, y_train, X_test):
        method_obj.fit(X_train, y_train)
        try:
            pred_log_prob = method_obj.predict_log_proba(X_test)
        except Exception:  # If there is no log proba available
            with np.errstate(divide="ignore"):  # Not unusual to have some p=0 cases
                pred_log_prob = np.log(method_obj.predict_proba(X_test))
        return pred_log_prob

''', '''    train_predict = memory.cache(_train_predict)

''')
r("classification", '''def get_pred_log_prob(
''', '''def _predict_log_prob(method_obj, X_test):
    try:
        return method_obj.predict_log_proba(X_test)
    except Exception:  # If there is no log proba available
        with np.errstate(divide="ignore"):  # Not unusual to have some p=0 cases
            return np.log(method_obj.predict_proba(X_test))


def _train_predict(method_obj, X_train, y_train, X_test):
    method_obj.fit(X_train, y_train)
    return _predict_log_prob(method_obj, X_test)


def get_pred_log_prob(
''')
r("classification", '''    full_tbl, dump = summary_table(
        pred_tbl, y_test, loss_dict, curve_dict, ref_method, pairwise_CI=pairwise_CI, method_EB=method_EB, limits=limits
    )
    return full_tbl, dump
''', '''    kwargs = dict(pairwise_CI=pairwise_CI, method_EB=method_EB, limits=limits)
    return summary_table(pred_tbl, y_test, loss_dict, curve_dict, ref_method, **kwargs)
''')
r("sciprint", '''    y = floor_mod(x, -mod)
    return y
''', '''    return -floor_mod(-x, mod)
''')
r("sciprint", '''            if EB.is_finite() and (not EB.is_zero()):
                mu = decimal.Decimal(perf_tbl.loc[method, (metric, MEAN_COL)])
                mu = mu.quantize(EB, rounding=decimal.ROUND_HALF_UP, context=EXACT_CONTEXT)
            else:
                # If EB is nan, inf, or 0 just round to default # of digits:
                mu = create_decimal(perf_tbl.loc[method, (metric, MEAN_COL)], default_digits, decimal.ROUND_HALF_UP)
''', '''            mu_fp = perf_tbl.loc[method, (metric, MEAN_COL)]
            if EB.is_zero() or not EB.is_finite():
                # If EB is nan, inf, or 0 just round to default # of digits:
                mu = create_decimal(mu_fp, default_digits)
            else:
                mu = decimal.Decimal(mu_fp).quantize(EB, rounding=decimal.ROUND_HALF_UP, context=EXACT_CONTEXT)
''')
r("sciprint", '''            perf_tbl_dec.loc[method, (metric, MEAN_COL)] = mu
            perf_tbl_dec.loc[method, (metric, ERR_COL)] = EB
            perf_tbl_dec.loc[method, (metric, PVAL_COL)] = pval
''', '''            for stat, value in ((PVAL_COL, pval), (ERR_COL, EB), (MEAN_COL, mu)):
                perf_tbl_dec.loc[method, (metric, stat)] = value
''')
r("sciprint", '''    best_shift = None
    best_len = np.inf
    # Must cast to list for Py3 compatibility
    zip_list = list(zip(mean_list, err_list))
    for shift in L:
        if shift % shift_mod != 0:
            continue

        max_len = max(str_print_len(print_estimate(mu, EB, shift)) for mu, EB in zip_list)
        if max_len < best_len:
            best_shift = shift
            best_len = max_len
    assert best_shift is not None
    return best_shift
''', '''    def width(shift):
        return max(str_print_len(print_estimate(mu, EB, shift)) for mu, EB in zip(mean_list, err_list))

    return min((shift for shift in L if shift % shift_mod == 0), key=width)
''')
r("sciprint", '''        unit = unit_dict.get(metric, None)

        if stat == PVAL_COL:
            new_headers[nn] = PVAL_COL
        elif unit is None:  # ==> stat == EST_COL, unitless
            if shift != 0:
                new_headers[nn] = fmt_shift % (metric_str, shift)
            else:
                new_headers[nn] = metric_str
        else:  # Need to display units
            prefix = prefix_dict.get(rev_shift, None)
            if use_prefix and (prefix is not None):
                new_headers[nn] = "%s (%s%s)" % (metric_str, prefix, unit)
            elif shift != 0:
                new_headers[nn] = fmt_shift_unit % (metric_str, shift, unit)
            else:
                new_headers[nn] = fmt_unit % (metric_str, unit)
''', '''        unit = unit_dict.get(metric, None)
        prefix = prefix_dict.get(rev_shift, None) if (use_prefix and unit is not None) else None
        shifted = metric_str if shift == 0 else fmt_shift % (metric_str, shift)

        if stat == PVAL_COL:
            new_headers[nn] = PVAL_COL
        elif unit is None:  # ==> stat == EST_COL, unitless
            new_headers[nn] = shifted
        elif prefix is not None:
            new_headers[nn] = fmt_unit % (metric_str, prefix + unit)
        else:
            new_headers[nn] = fmt_unit % (shifted, unit)
''')
r("sciprint", '''    perf_tbl_dec = decimalize(perf_tbl_fp, EB_limit=EB_limit)
    perf_tbl_str, shifts = format_table(
        perf_tbl_dec,
        shift_mod=shift_mod,
''', '''    perf_tbl_str, shifts = format_table(
        decimalize(perf_tbl_fp, EB_limit=EB_limit),
        shift_mod=shift_mod,
''')

SETS = {"A": A, "B": R}


def make(which, dest, mods):
    if os.path.exists(dest):
        raise SystemExit("%s exists" % dest)
    shutil.copytree("/repo", dest, symlinks=True)
    for mod, old, new in SETS[which]:
        if mods and mod not in mods:
            continue
        p = os.path.join(dest, "mlpaper", mod + ".py")
        s = open(p).read()
        lines = [l for l in old.split("\n")[:-1] if l.strip()] + [old.split("\n")[-1]]
        pat = r"\n(?:[ ]*\n)*".join(re.escape(l) for l in lines)
        hits = re.findall(pat, s)
        if len(hits) != 1:
            raise SystemExit("%s: %d matches of\n%s" % (mod, len(hits), old))
        open(p, "w").write(re.sub(pat, lambda m: new, s))
    print(subprocess.run("git -C %s diff --stat" % dest, shell=True, stdout=subprocess.PIPE, universal_newlines=True).stdout)


if __name__ == "__main__":
    make(sys.argv[2], sys.argv[3], sys.argv[4:])
