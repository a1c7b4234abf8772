"""Behaviour-preserving edits: (file, class-or-None, function, new source)."""
EDITS = [
("utils/window.py", "Window", "update", '''
    def update(self, num):
        self.window = (self.window + [num])[-self.window_size:]
'''),
("models/half_space_trees.py", "HalfSpaceTrees", "_update_mass", '''
    def _update_mass(self, x, node, ref_window):
        while True:
            if ref_window:
                node.r_mass += 1
            node.l_mass += 1
            if node.k >= self.max_depth:
                return
            if x[node.split_att] <= node.split_value:
                node = node.left
            else:
                node = node.right
'''),
("models/half_space_trees.py", "HalfSpaceTrees", "_update_model", '''
    def _update_model(self, node):
        stack = [node]
        while stack:
            cur = stack.pop()
            if cur is None:
                continue
            cur.r_mass, cur.l_mass = cur.l_mass, 0
            stack.extend((cur.left, cur.right))
        self.is_first_window = False
'''),
("models/half_space_trees.py", "HalfSpaceTrees", "score_partial", '''
    def score_partial(self, X):
        return -sum(self._score_tree(X, root) for root in self.roots)
'''),
("models/half_space_trees.py", "HalfSpaceTrees", "_score_tree", '''
    def _score_tree(self, X, node):
        total = 0.0
        while node is not None:
            total += node.r_mass * (2**node.k)
            node = node.left if X[node.split_att] <= node.split_value else node.right
        return total
'''),
("models/xstream.py", "_Chain", "fit", '''
    def fit(self, X):
        for depth, bins in enumerate(self._cells(X)):
            sketch = (self.cmsketches if self.is_first_window else self.cmsketches_cur)[depth]
            for key in bins:
                sketch[key] = sketch.get(key, 0) + 1
            if self.is_first_window:
                self.cmsketches_cur[depth] = sketch
        return self

    def _cells(self, X):
        prebins = np.zeros(X.shape, dtype=np.float64)
        seen = np.zeros(len(self.deltamax), dtype=np.int32)
        for f in self.fs:
            seen[f] += 1
            if seen[f] == 1:
                prebins[:, f] = (X[:, f] + self.shift[f]) / self.deltamax[f]
            else:
                prebins[:, f] = 2.0 * prebins[:, f] - self.shift[f] / self.deltamax[f]
            yield [tuple(row) for row in np.floor(prebins)]
'''),
("models/xstream.py", "_Chain", "bincount", '''
    def bincount(self, X):
        scores = np.zeros((X.shape[0], self.depth))
        for depth, bins in enumerate(self._cells(X)):
            scores[:, depth] = [self.cmsketches[depth].get(key, 0) for key in bins]
        return scores
'''),
("models/xstream.py", "_Chain", "next_window", '''
    def next_window(self):
        self.cmsketches, self.cmsketches_cur = self.cmsketches_cur, [{} for _ in range(self.depth)]
        self.is_first_window = False
'''),
("models/rs_hash.py", "RSHash", "fit_partial", '''
    def fit_partial(self, X, y=None):
        total = 0
        for comp, (dims, shift, f) in enumerate(zip(self.V, self.alpha, self.f)):
            cell = (float(comp),) + tuple(np.floor((X[dims] + shift) / float(f)))
            total = total + np.log(1 + min(self._touch(sketch, cell) for sketch in self.cmsketches))
        self.last_score = total / self.m
        self.index += 1
        return self

    def _touch(self, sketch, cell):
        stamp, weight = sketch.get(cell, (self.index, 0))
        weight = weight * np.power(2, -self.decay * (self.index - stamp))
        sketch[cell] = (self.index, weight + 1)
        return weight
'''),
("models/knn_cad.py", "KNNCAD", "_ncm", '''
    def _ncm(self, item, item_in_array=False):
        count = self.k + int(item_in_array)
        dists = np.sort([self._metric(x, item) for x in self.training])
        return np.sum(dists[:count])
'''),
("models/knn_cad.py", "KNNCAD", "score_partial", '''
    def score_partial(self, X):
        if self.record_count < self.probationaryPeriod or len(self.buf) < self.dim:
            return 0.0
        current = self._ncm(self.buf[-self.dim:])
        below = sum(1 for s in self.scores if s < current)
        result = float(below) / len(self.scores)
        if self.pred > 0:
            self.pred -= 1
            return 0.5
        if result >= 0.9965:
            self.pred = self.probationaryPeriod // 5
        return result
'''),
("core/base_model.py", "BaseModel", "score", '''
    def score(self, X):
        return np.array([self._as_float(self.score_partial(xi)) for xi, _ in _iterate(X)], dtype=np.float64)

    @staticmethod
    def _as_float(score):
        return np.asarray(score, dtype=np.float64).item()
'''),
("core/base_model.py", "BaseModel", "fit_score", '''
    def fit_score(self, X, y=None):
        out = np.zeros(X.shape[0], dtype=np.float64)
        pos = 0
        for xi, yi in _iterate(X, y):
            out[pos] = self._as_float(self.fit_score_partial(xi, yi))
            pos += 1
        return out
'''),
("core/base_transformer.py", "BaseTransformer", "fit_transform", '''
    def fit_transform(self, X):
        dims = X.shape[1] if self.output_dims <= 0 else self.output_dims
        out = np.empty((len(X), dims), dtype=np.float64)
        for row, (xi, _) in zip(out, _iterate(X)):
            row[:] = self.fit_transform_partial(xi)
        return out
'''),
("core/base_postprocessor.py", "BasePostprocessor", "fit_transform", '''
    def fit_transform(self, scores):
        processed = [self.fit_transform_partial(score) for score, _ in _iterate(scores)]
        return np.array([np.asarray(p).item() for p in processed], dtype=np.float64)
'''),
("models/exact_storm.py", "ExactStorm", "score_partial", '''
    def score_partial(self, X):
        previous = self.window.get()[:-1]
        if not previous:
            return 0.0
        dists = scipy.spatial.distance.cdist([X], previous)[0]
        return np.count_nonzero(dists < self.max_radius) / len(previous)
'''),
("models/robust_random_cut_forest.py", "RobustRandomCutForest", "fit_partial", '''
    def fit_partial(self, X, y=None):
        oldest = self.index - self.tree_size
        for tree in self.forest:
            if oldest >= 0:
                tree.forget_point(oldest)
            tree.insert_point(X, index=self.index)
        self.index += 1
        return self
'''),
("models/relative_entropy.py", "RelativeEntropy", "_get_agreement_hypothesis", '''
    def _get_agreement_hypothesis(self, P_hat):
        best, index = self.T, -1
        for i, ref in enumerate(self.P[:self.m]):
            entropy = 2 * self.W * stats.entropy(P_hat, ref)
            if entropy < best:
                best, index = entropy, i
        return index
'''),
("models/perfect_model.py", "PerfectModel", "score_partial", '''
    def score_partial(self, X):
        score, *rest = self.labels
        self.labels = rest
        return score
'''),
("models/integrations/reference_window_model.py", "ReferenceWindowModel", "fit_partial", '''
    def fit_partial(self, X, y=None):
        self.cur_window_X.append(X)
        if y is not None:
            self.cur_window_y.append(y)

        filling = not self.initial_ref_window \\
            and len(self.cur_window_X) < self.window_size \\
            and (self.reference_window_X is None or len(self.reference_window_X) < self.window_size)
        if filling:
            self.reference_window_X = list(self.cur_window_X)
            self.reference_window_y = None if y is None else list(self.cur_window_y)
            self._fit_model()
        elif len(self.cur_window_X) % self.sliding_size == 0:
            self.reference_window_X = self._slide(self.reference_window_X, self.cur_window_X)
            if y is not None:
                self.reference_window_y = self._slide(self.reference_window_y, self.cur_window_y)
            self.cur_window_X, self.cur_window_y = [], []
            self._fit_model()
        return self

    def _slide(self, reference, current):
        merged = np.array(current) if reference is None else np.concatenate([reference, current], axis=0)
        return merged[max(0, len(merged) - self.window_size):]
'''),
("models/seasonal_esd.py", "SeasonalESD", "_esd", '''
    def _esd(self, values):
        values = np.asarray(values, dtype=np.float64)
        alive = np.ones(len(values), dtype=bool)
        found, selected = [], 0
        for step in range(1, self.max_anomalies + 1):
            rest = values[alive]
            center, scale = self._center_scale(rest)
            if scale <= 1e-10:
                break
            deviations = np.abs(rest - center) / scale
            worst = int(np.argmax(deviations))
            index = np.flatnonzero(alive)[worst]
            critical = self._critical_value(len(values), step)
            found.append((index, deviations[worst], critical))
            if deviations[worst] > critical:
                selected = step
            alive[index] = False
        return found[:selected]
'''),
("models/seasonal_esd.py", "SeasonalESD", "_score_window", '''
    def _score_window(self, values):
        size = len(values)
        if size < self.window_size:
            return 0.0
        anomalies = {idx: statistic for idx, statistic, _ in self._esd(self.residual_transformer.transform_window(values))}
        return anomalies.get(size - 1, 0.0)
'''),
("transform/preprocessing/seasonal_trend_decomposer.py", "SeasonalTrendDecomposer", "fit_transform_partial", '''
    def fit_transform_partial(self, X):
        X = self._as_array(X)
        phase = self.num_seen % self.season_length
        self.fit_partial(X)
        return X - self._trend() - self._seasonal(phase)
'''),
("transform/postprocessing/postprocessors.py", "ZScorePostprocessor", "transform_partial", '''
    def transform_partial(self, score):
        mean, std = self.average_meter.get(), self.variance_meter.get() ** 0.5
        return (score - mean) / std
'''),
("transform/probability_calibration/conformal_prediction.py", "ConformalProbabilityCalibrator", "transform_partial", '''
    def transform_partial(self, score):
        held = np.asarray(self.window.get())
        return np.mean(held > score)
'''),
("transform/probability_calibration/gaussian_tail.py", "GaussianTailProbabilityCalibrator", "_qfunction", '''
    def _qfunction(self, x, mean, std):
        return 0.5 * math.erfc((x - mean) / (std * math.sqrt(2)))
'''),
("transform/projection/streamhash_projector.py", "StreamhashProjector", "transform_partial", '''
    def transform_partial(self, X):
        x = np.asarray(X).reshape(-1)
        out = np.zeros(len(self.keys))
        for row, key in enumerate(self.keys):
            coefs = [self._hash_string(key, str(i)) for i in range(len(x))]
            out[row] = np.dot(x, coefs)
        return out
'''),
("statistics/max_meter.py", "MaxMeter", "remove", '''
    def remove(self, num):
        self.lst.remove(num)
        self.max = max(self.lst, default=-math.inf)
        return self
'''),
("statistics/median_meter.py", "MedianMeter", "get", '''
    def get(self):
        ordered = sorted(self.lst)
        half, odd = divmod(self.num_items, 2)
        return ordered[half] if odd else (ordered[half - 1] + ordered[half]) / 2
'''),
("statistics/running_statistic.py", "RunningStatistic", "update", '''
    def update(self, num):
        self.statistic.update(num)
        self.window.append(num)
        while len(self.window) > self.window_size:
            self.statistic.remove(self.window.pop(0))
        return self
'''),
("evaluation/windowed_metric.py", "WindowedMetric", "get", '''
    def get(self):
        finished = self.num_windows - 1
        if finished == 0:
            return self.metric.get()
        average = self.score_meter.get()
        if self.ignore_nonempty_last or self.step % self.window_size == 0:
            return average
        return (average * finished + self.metric.get()) / (finished + 1)
'''),
("utils/array_streamer.py", "ArrayStreamer", "iter", '''
    def iter(self, X, y=None):
        indices = np.arange(len(X))
        if self.shuffle:
            np.random.shuffle(indices)
        return self._iter(indices.tolist(), X, y)
'''),
("models/standard_absolute_deviation.py", "StandardAbsoluteDeviation", "score_partial", '''
    def score_partial(self, X):
        spread = np.sqrt(self.variance_meter.get()) + 1e-10
        score = (X - self.sub_meter.get()) / spread
        if self.absolute:
            score = np.abs(score)
        return score
'''),
("transform/ensemble/ensemblers.py", "PYODScoreEnsembler", "transform_partial", '''
    def transform_partial(self, scores):
        row = np.asarray(scores)[np.newaxis, :] if np.ndim(scores) == 1 else np.asarray(scores).reshape(1, -1)
        return self._combine(row)
'''),
]
IMPORTS = {"models/standard_absolute_deviation.py": "import numpy as np\n", "transform/ensemble/ensemblers.py": "import numpy as np\n"}
