"""Behaviour-preserving edits, second style: other data structures, caches, vectorisation."""
EDITS = [
("utils/window.py", "Window", "__init__", '''
    def __init__(self, window_size):
        from collections import deque
        self.window_size = window_size
        self._items = deque(maxlen=window_size)
'''),
("utils/window.py", "Window", "update", '''
    def update(self, num):
        self._items.append(num)
'''),
("utils/window.py", "Window", "get", '''
    def get(self):
        return list(self._items)
'''),
("utils/window.py", "UnlimitedWindow", "update", '''
    def update(self, num):
        self._items.append(num)
'''),
("statistics/running_statistic.py", "RunningStatistic", "__init__", '''
    def __init__(self, statistic_cls, window_size, **kwargs):
        from collections import deque
        super().__init__()
        self.statistic_cls = statistic_cls
        self.statistic = statistic_cls(**kwargs)
        self.window_size = window_size
        self.window = deque()
'''),
("statistics/running_statistic.py", "RunningStatistic", "update", '''
    def update(self, num):
        self.window.append(num)
        self.statistic.update(num)
        if len(self.window) > self.window_size:
            self.statistic.remove(self.window.popleft())
        return self
'''),
("statistics/median_meter.py", "MedianMeter", "update", '''
    def update(self, num):
        from bisect import insort
        insort(self.lst, num)
        self.num_items += 1
        return self
'''),
("statistics/median_meter.py", "MedianMeter", "get", '''
    def get(self):
        lo, hi = (self.num_items - 1) // 2, self.num_items // 2
        if lo == hi:
            return self.lst[lo]
        return (self.lst[lo] + self.lst[hi]) / 2
'''),
("statistics/max_meter.py", "MaxMeter", "update", '''
    def update(self, num):
        self.lst.append(num)
        self.max = num if num > self.max else self.max
        return self
'''),
("statistics/min_meter.py", "MinMeter", "update", '''
    def update(self, num):
        self.lst.append(num)
        self.min = num if num < self.min else self.min
        return self
'''),
("statistics/variance_meter.py", "VarianceMeter", "get", '''
    def get(self):
        n = self.count_meter.get()
        total = self.sum_meter.get()
        return np.maximum((self.sum_squares_meter.get() - total * total / n) / n, 0.0)
'''),
("transform/projection/streamhash_projector.py", "StreamhashProjector", "transform_partial", '''
    def transform_partial(self, X):
        X = X.reshape(1, -1)
        ndim = X.shape[1]
        cached = getattr(self, "_matrix", None)
        if cached is None or cached.shape[1] != ndim:
            self._matrix = np.array([[self._hash_string(k, str(i)) for i in range(ndim)] for k in self.keys])
        return X.dot(self._matrix.T).reshape(-1)
'''),
("models/rs_hash.py", "RSHash", "fit_partial", '''
    def fit_partial(self, X, y=None):
        scores = []
        for r in range(self.m):
            dims = self.V[r]
            key = (r,) + tuple(np.floor((X[dims] + self.alpha[r]) / self.f[r]).tolist())
            found = []
            for sketch in self.cmsketches:
                if key in sketch:
                    t, w = sketch[key]
                    w = w * 2.0 ** (self.decay * (t - self.index))
                else:
                    w = 0
                found.append(w)
                sketch[key] = (self.index, w + 1)
            scores.append(np.log1p(min(found)))
        self.last_score = np.sum(scores) / self.m
        self.index += 1
        return self
'''),
("models/knn_cad.py", "KNNCAD", "_ncm", '''
    def _ncm(self, item, item_in_array=False):
        diffs = np.asarray(self.training) - np.asarray(item)
        dists = np.einsum("ij,jk,ik->i", diffs, self.sigma, diffs)
        k = self.k + item_in_array
        return np.partition(dists, k)[:k].sum()
'''),
("models/loda.py", "LODA", "score_partial", '''
    def score_partial(self, X):
        x = X.reshape(-1)
        total = 0.0
        for weights, projection, histogram, limits in zip(self.weights, self.projections_, self.histograms_, self.limits_):
            pos = np.searchsorted(limits[:self.n_bins - 1], projection.dot(x), side='left')
            total -= weights * np.log(histogram[pos])
        return np.array([total / self.n_random_cuts])
'''),
("models/robust_random_cut_forest.py", "RobustRandomCutForest", "score_partial", '''
    def score_partial(self, X):
        total = 0.0
        for tree in self.forest:
            leaf = tree.find_duplicate(X)
            temporary = leaf is None
            if temporary:
                leaf = "test_point"
                tree.insert_point(X, index=leaf)
            total += tree.codisp(leaf)
            if temporary:
                tree.forget_point(leaf)
        return total / self.num_trees
'''),
("models/relative_entropy.py", "RelativeEntropy", "fit_partial", '''
    def fit_partial(self, X, y=None):
        bin_ = math.ceil((np.asarray(X).item() - self.min_val) / self.stepSize)
        self.util = (self.util + [bin_])[-self.W:]
        if len(self.util) == self.W:
            self.P_hat, _ = np.histogram(self.util, bins=self.N_bins, range=(0, self.N_bins), density=True)
            if not self.P:
                self.P = [self.P_hat]
                self.c = [1]
                self.m = 1
        return self
'''),
("models/integrations/reference_window_model.py", "ReferenceWindowModel", "score_partial", '''
    def score_partial(self, X):
        scores = self.model.decision_function(np.asarray(X).reshape(1, -1))
        return scores[0]
'''),
("evaluation/windowed_metric.py", "WindowedMetric", "update", '''
    def update(self, y_true, y_pred):
        self.metric.update(y_true, y_pred)
        self.step += 1
        if self.step % self.window_size:
            return self
        self.score_meter.update(self.metric.get())
        self.num_windows += 1
        self.metric = self._init_metric(**self.metric_kwargs)
        return self
'''),
("transform/preprocessing/seasonal_trend_decomposer.py", "SeasonalTrendDecomposer", "_trend", '''
    def _trend(self):
        n = len(self.window)
        return sum(self.window) / n if n else 0.0
'''),
("transform/preprocessing/seasonal_trend_decomposer.py", "SeasonalTrendDecomposer", "_init_seasonal_state", '''
    def _init_seasonal_state(self, X):
        self.seasonal_sums = [np.zeros(X.shape[0]) for _ in range(self.season_length)]
        self.seasonal_counts = [0] * self.season_length
'''),
("transform/preprocessing/modified_stl_residual.py", "ModifiedSTLResidualTransformer", "transform_window", '''
    def transform_window(self, X):
        import statsmodels.tsa.seasonal as ts
        series = self._as_univariate(X)
        if len(series) < 2 * self.period:
            raise ValueError("At least 2 * period observations are required for STL.")
        decomposition = ts.STL(endog=series, period=self.period, robust=self.robust, **self.stl_kwargs).fit()
        return series - (decomposition.seasonal + np.median(series))
'''),
("models/seasonal_esd.py", "SeasonalESD", "_critical_value", '''
    def _critical_value(self, n, i):
        tail = self.alpha / (2.0 * (n - i + 1))
        q = t.isf(tail, n - i - 1)
        return (n - i) * q / np.sqrt((n - i - 1 + q * q) * (n - i + 1))
'''),
("models/seasonal_esd.py", "SeasonalHybridESD", "_center_scale", '''
    def _center_scale(self, values):
        med = np.median(values)
        return med, np.median(np.abs(values - med)) * 1.4826
'''),
("models/half_space_trees.py", "HalfSpaceTrees", "_build_single_hs_tree", '''
    def _build_single_hs_tree(self, mins, maxes, current_depth):
        if current_depth == self.max_depth:
            return self._Node(None, None, 0, 0, 0, 0.0, current_depth)
        q = np.random.randint(self.num_dimensions)
        p = (maxes[q] + mins[q]) / 2.0
        below, above = copy.copy(maxes), copy.copy(mins)
        below[q] = p
        above[q] = p
        left = self._build_single_hs_tree(copy.copy(mins), below, current_depth + 1)
        right = self._build_single_hs_tree(above, copy.copy(maxes), current_depth + 1)
        return self._Node(left, right, 0, 0, q, p, current_depth)
'''),
("models/xstream.py", "xStream", "_compute_deltamax", '''
    def _compute_deltamax(self):
        half = np.ptp(np.vstack(self.ref_window), axis=0) / 2.0
        return np.where(half <= 0.0001, 1.0, half)
'''),
("models/xstream.py", "_Chain", "score", '''
    def score(self, X):
        counts = self.bincount(X)
        return (-(np.log2(1.0 + counts) + np.arange(1, self.depth + 1))).max(axis=1)
'''),
("models/xstream.py", "_HSChains", "score", '''
    def score(self, X):
        return np.mean([ch.score(X) for ch in self.chains], axis=0)
'''),
("utils/__init__.py", None, "_iterate", '''
def _iterate(X, y=None):
    stream = ArrayStreamer(shuffle=False)
    if y is None:
        yield from ((xi, None) for xi in stream.iter(X))
        return
    yield from stream.iter(X, y)
'''),
("core/base_model.py", "BaseModel", "fit", '''
    def fit(self, X, y=None):
        for pair in _iterate(X, y):
            self.fit_partial(*pair)
        return self
'''),
]
