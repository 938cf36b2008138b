"""Behaviour-preserving rewrites of the code under contract (see rf.py)"""
SM, MM, S, D = ("sample/sms/sm.py", "sample/sms/mm.py", "sample/sample.py",
                "sample/sms/dsp.py")
R = []


def rw(name, props, *edits):
  R.append((name, props, edits))


rw("minkey-while", "C01 C02 C04", (SM, '''  i_ = None
  x_ = None
  for i in it:
    x = key(i)
    if x_ is None or x < x_:
      i_ = i
      x_ = x
  return i_, x_
''', '''  best = (None, None)
  for cand in it:
    value = key(cand)
    if best[1] is not None and not value < best[1]:
      continue
    best = (cand, value)
  return best
'''))
rw("call-helpers", "C01 C02", (SM, '''      if df < self.df(pfreq[p_i]):
        self._active_tracks[t_i]["freq"].append(pfreq[p_i])
        self._active_tracks[t_i]["mag"].append(pmag[p_i])
        self._active_tracks[t_i]["phase"].append(pph[p_i])
        free_track[t_i] = False
        free_peak[p_i] = False
''', '''      if df >= self.df(pfreq[p_i]):
        continue
      free_peak[p_i] = False
      free_track[t_i] = False
      self._extend(self._active_tracks[t_i], pfreq[p_i], pmag[p_i], pph[p_i])
'''), (SM, '''  def __call__(self, pfreq''', '''  @staticmethod
  def _extend(track, f, m, ph):
    """Add a peak to a track"""
    track["phase"].append(ph)
    track["mag"].append(m)
    track["freq"].append(f)

  def __call__(self, pfreq'''))
rw("call-npany", "C01 C02", (SM, '''      if not any(free_track):
        break''', '''      if not np.any(free_track):
        break'''))
rw("call-newtracks", "C01 C02", (SM, '''    for p_i in filter(free_peak.__getitem__, range(pmag.size)):
      if self.n_active_tracks >= self.max_n_sines:
        break
      self._active_tracks.append({
          "start_frame": self._frame,
          "freq": [pfreq[p_i]],
          "mag": [pmag[p_i]],
          "phase": [pph[p_i]],
      })
''', '''    for p_i in range(pmag.size):
      if not free_peak[p_i]:
        continue
      if len(self._active_tracks) >= self.max_n_sines:
        break
      new = dict(start_frame=self._frame,
                 freq=[pfreq[p_i]],
                 mag=[pmag[p_i]],
                 phase=[pph[p_i]])
      self._active_tracks.append(new)
'''))
rw("call-deact", "C01 C02", (SM, '''    for t_i in filter(free_track.__getitem__,
                      reversed(range(self.n_active_tracks))):
      self.deactivate(t_i)
''', '''    for t_i in range(self.n_active_tracks - 1, -1, -1):
      if free_track[t_i]:
        self.deactivate(t_i)
'''))
rw("call-argsort", "C01 C02", (SM, '''    peak_order = np.argsort(-pmag)  # decreasing order of magnitude
''', '''    neg = np.negative(pmag)
    peak_order = np.argsort(neg)
'''))
rw("call-mindist", "C01", (SM, '''          lambda i, p=p_i: np.abs(self._active_tracks[i]["freq"][-1] - pfreq[p])
''', '''          lambda i, f=pfreq[p_i]: abs(f - self._active_tracks[i]["freq"][-1])
'''))
rw("fit-loop", "C02", (SM, '''    for mx, px in map(functools.partial(self.intermediate.append, "stft"),
                      self.dft_frames(x)):
      ploc, pmag, pph = self.intermediate.append(
          "peaks", sms.dsp.peak_detect_interp(mx, px, self.t))
      pfreq = ploc * self.fs / self.n  # indices to frequencies in Hz
''', '''    for frame in self.dft_frames(x):
      mx, px = self.intermediate.append("stft", frame)
      peaks = sms.dsp.peak_detect_interp(mx, px, t=self.t)
      ploc, pmag, pph = self.intermediate.append("peaks", peaks)
      pfreq = self.fs * ploc / self.n  # indices to frequencies in Hz
'''))
rw("sm-trackok", "C02 C03", (SM, '''    return len(track["freq"]) >= self.min_sine_len
''', '''    n = len(track["freq"])
    return not n < self.min_sine_len
'''))
rw("sm-minlen", "C02 C03", (SM, '''    return max(2, math.ceil(self.min_sine_dur * self.frame_rate))
''', '''    n = math.ceil(self.frame_rate * self.min_sine_dur)
    return n if n > 2 else 2
'''))
rw("mm-trackok", "C03", (MM, '''    mf = np.mean(track["freq"])
    if self.frequency_bounds[0] is not None and mf < self.frequency_bounds[0]:
      return False
    if self.frequency_bounds[1] is not None and mf > self.frequency_bounds[1]:
      return False

    lm_x = np.arange(track["mag"].size).reshape((-1, 1))
    if self.reverse:
      lm_x = np.flip(lm_x)
    lm_y = track["mag"]
    lm = linear_model.LinearRegression().fit(lm_x, lm_y)
    if np.squeeze(lm.coef_) > 0:
      return False
    if np.squeeze(lm.intercept_) < self.peak_threshold:
      return False

    return True
''', '''    return self._frequency_ok(track) and self._magnitude_ok(track)

  def _frequency_ok(self, track):
    lo, hi = self.frequency_bounds
    mf = track["freq"].mean()
    return (lo is None or mf >= lo) and (hi is None or mf <= hi)

  def _magnitude_ok(self, track):
    n = np.size(track["mag"])
    lm_x = np.arange(n)
    if self.reverse:
      lm_x = lm_x[::-1]
    lm = linear_model.LinearRegression()
    lm.fit(np.reshape(lm_x, (-1, 1)), track["mag"])
    slope = lm.coef_[0]
    return bool(slope <= 0 and lm.intercept_ >= self.peak_threshold)
'''))
rw("mm-deact", "C04", (MM, '''    t = self.numpy_track(self._active_tracks.pop(track_index))
    if self.track_ok(t):
      u, df = sm.min_key(
          # choose amongst previous tracks only
          filter(
              lambda u: (u["start_frame"] + u["mag"].size) < t["start_frame"],
              self.tracks_),
          # absolute difference of the two tracks according to the strategy
          functools.partial(self.freq_diff_function, u=t))
      if u is not None and df < self.df(t["freq"][0]):
        pad = np.full(t["start_frame"] - u["start_frame"] - u["mag"].size,
                      np.nan)
        for k in ("freq", "mag", "phase"):
          u[k] = np.concatenate((u[k], pad, t[k]), axis=None)
      else:
        self.tracks_.append(t)
    return t
''', '''    t = self.numpy_track(self._active_tracks.pop(track_index))
    if not self.track_ok(t):
      return t
    diff = self.freq_diff_function
    older = [
        u for u in self.tracks_
        if u["start_frame"] + u["mag"].size < t["start_frame"]
    ]
    u, df = sm.min_key(older, lambda v: diff(v, t))
    if u is None or not df < self.df(t["freq"][0]):
      self.tracks_.append(t)
    else:
      gap = t["start_frame"] - (u["start_frame"] + u["mag"].size)
      pad = np.full(gap, np.nan)
      u["freq"] = np.concatenate((u["freq"], pad, t["freq"]))
      u["mag"] = np.concatenate((u["mag"], pad, t["mag"]))
      u["phase"] = np.concatenate((u["phase"], pad, t["phase"]))
    return t
'''))
rw("mm-strip", "C03", (MM, '''    def onset_ok(t):
      o = t["start_frame"]
      if self.reverse:
        o = self._frame - (o + t["mag"].size)
      return o <= self.strip_n

    return filter(onset_ok, tracks)
''', '''    strip_n = self.strip_n

    def onset_ok(t):
      if self.reverse:
        o = self._frame - t["start_frame"] - t["mag"].size
      else:
        o = t["start_frame"]
      return not o > strip_n

    return (t for t in tracks if onset_ok(t))
'''))
rw("pad-concat", "C07", (SM, '''    y = np.zeros(x.size + a + b)
    y[a:(a + x.size)] = x
    return y, a
''', '''    y = np.concatenate((np.zeros(a), x, np.zeros(b)))
    return y, a
'''))
rw("pad-npad", "C07", (SM, '''    a = (self.w.size + 1) // 2
    b = self.w.size // 2
    y = np.zeros(x.size + a + b)
''', '''    b = self.w.size // 2
    a = self.w.size - b
    y = np.zeros(a + b + x.size)
'''))
rw("refine", "C06", (D, '''  dmx = mx_l - mx_r
  ploc_d = .5 * dmx / (mx_l - 2 * mx_c + mx_r)
  ploc_i = ploc + ploc_d  # x-coordinate of vertex
  pmag_i = mx_c - .25 * dmx * ploc_d  # y-coordinate of vertex
''', '''  num = mx_l - mx_r
  den = (mx_l - mx_c) + (mx_r - mx_c)
  shift = num / (2 * den)
  ploc_i = ploc + shift  # x-coordinate of vertex
  pmag_i = mx_c - num * shift / 4  # y-coordinate of vertex
'''))
rw("prep", "C09", (S, '''    notnans = np.logical_not(np.isnan(t["mag"]))
    time_axis = np.arange(t["mag"].size, dtype=float)[notnans]
    time_axis += t["start_frame"]
    time_axis /= self.sinusoidal.frame_rate
    if not self.sinusoidal.padded:
      time_axis += 0.5 * self.sinusoidal.w.size / self.sinusoidal.fs
    t_filtered = {
        k: v if np.ndim(np.squeeze(v)) != 1 else v[notnans]
        for k, v in t.items()
    }
''', '''    notnans = ~np.isnan(t["mag"])
    frames = np.arange(t["mag"].size, dtype=float) + t["start_frame"]
    time_axis = frames[notnans] / self.sinusoidal.frame_rate
    if not self.sinusoidal.padded:
      offset = self.sinusoidal.w.size / (2 * self.sinusoidal.fs)
      time_axis = time_axis + offset
    t_filtered = {}
    for k, v in t.items():
      if np.ndim(np.squeeze(v)) == 1:
        t_filtered[k] = v[notnans]
      else:
        t_filtered[k] = v
'''))
rw("fittrack", "C11", (S, '''    r = base.clone(self.regressor).fit(np.reshape(t, (-1, 1)), track["mag"])

    f = self.freq_reduce(track["freq"])
    d = self._D2K_CONST / getattr(r, self.regressor_k)
    a = utils.dsp.db2a(getattr(r, self.regressor_q))
    return ((f, d, a),)
''', '''    f = self.freq_reduce(track["freq"])
    r = base.clone(self.regressor)
    r.fit(t.reshape(-1, 1), track["mag"])
    k = getattr(r, self.regressor_k)
    q = getattr(r, self.regressor_q)
    return [(f, self._D2K_CONST / k, utils.dsp.db2a(q))]
'''))
rw("fit-params", "C11 C23", (S, '''      params = itertools.chain.from_iterable(
          fit_args.starmap_progress(self._track_preprocess_and_fit,
                                    ((i, x, t) for i, t in enumerate(tracks)),
                                    tot=len(self.sinusoidal.tracks_)))
      self.param_matrix_ = np.array(list(params)).T

      # Clean results
      if self.param_matrix_.size == 0:
        self.param_matrix_ = np.empty((self._PARAM_MATRIX_NROWS, 0))
      self.param_matrix_ = self.param_matrix_[:, self._valid_params_]
''', '''      jobs = [(i, x, t) for i, t in enumerate(tracks)]
      results = fit_args.starmap_progress(self._track_preprocess_and_fit,
                                          jobs,
                                          tot=len(tracks))
      params = [p for ps in results for p in ps]
      if not params:
        self.param_matrix_ = np.empty((self._PARAM_MATRIX_NROWS, 0))
      else:
        self.param_matrix_ = np.transpose(np.array(params))
      valid = self._valid_params_
      self.param_matrix_ = self.param_matrix_[:, valid]
'''))
rw("fit-kwargs", "C11 C23", (S, '''    for k, v in kwargs.items():
      (sample_kwargs if k in self.get_params() else ctx_kwargs)[k] = v
''', '''    names = self.get_params()
    for k, v in kwargs.items():
      if k in names:
        sample_kwargs[k] = v
      else:
        ctx_kwargs[k] = v
'''))
rw("valid", "C11", (S, '''    return np.isfinite(self.param_matrix_).all(axis=0)
''', '''    bad = np.logical_not(np.isfinite(self.param_matrix_))
    return np.logical_not(np.any(bad, axis=0))
'''))
rw("argsort", "C13", (S, '''    asort = np.argsort(getattr(self, f"{order}_")).tolist()
    if reverse:
      asort = list(reversed(asort))
    return asort
''', '''    values = getattr(self, order + "_")
    asort = list(np.argsort(values))
    if reverse:
      asort.reverse()
    return [int(i) for i in asort]
'''))
rw("argsort2", "C13", (S, '''      asort = list(reversed(asort))
''', '''      asort = asort[::-1]
'''))
rw("sdt", "C13", (S, '''    n_modes = self.freqs_.size
    m_ord = self.mode_argsort_(order=order, reverse=reverse)
    active_modes = n_modes if self.max_n_modes is None else min(
        self.max_n_modes, n_modes)
''', '''    m_ord = self.mode_argsort_(order, reverse)
    n_modes = len(self.freqs_)
    active_modes = n_modes
    if self.max_n_modes is not None and self.max_n_modes < n_modes:
      active_modes = self.max_n_modes
'''))
rw("predict", "C13", (S, '''    if n_modes is None:
      if self.max_n_modes is None:
        n_modes = self.freqs_.size
      else:
        n_modes = self.max_n_modes
    m_ord = self.mode_argsort_(order=order, reverse=reverse)[:n_modes]
''', '''    m_ord = self.mode_argsort_(order=order, reverse=reverse)
    if n_modes is None:
      n_modes = self.max_n_modes
    if n_modes is not None:
      m_ord = m_ord[:n_modes]
'''))
rw("synth", "C12", (S, '''  osc = (2 * np.pi * col(x)) @ row(freqs)
''', '''  osc = col(x) @ row(freqs)
  osc = osc * (2 * np.pi)
'''), (S, '''    np.add(osc, row(phases), out=osc)
  osc = (utils''', '''    osc = osc + row(phases)
  osc = (utils'''), (S, '''  dec = col(x) @ (-2 / row(decays))
  np.exp(dec, out=dec)
  amp = col(amps)
  return np.squeeze((dec * osc) @ amp)''', '''  dec = np.exp(-2 * col(x) / row(decays))
  return np.squeeze(np.sum(row(amps) * dec * osc, axis=1))'''))
rw("synth2", "C12", (S, '''  amp = col(amps)
  return np.squeeze((dec * osc) @ amp)''', '''  amp = np.ravel(amps)
  return np.squeeze(np.dot(dec * osc, amp))'''))
DP, H, DEC, REG, BS, TR = ("sample/utils/dsp.py", "sample/hinge.py",
                           "sample/beatsdrop/decision.py",
                           "sample/beatsdrop/regression.py",
                           "sample/beatsdrop/sample.py",
                           "sample/_training.py")
rw("decide", "C22", (DEC, '''    if fit:
      beatsdrop.fit(t=t, a=track["mag"], f=track["freq"])
    d = self.intermediate.append("decision",
                                 self.decide_beat(i=i,
                                                  t=t,
                                                  track=track,
                                                  beatsdrop=beatsdrop,
                                                  params=params),
                                 index=i)
    return self.output_beat_params(
        beatsdrop.params_) if d else self.output_params(params)
''', '''    if fit:
      mag, freq = track["mag"], track["freq"]
      beatsdrop.fit(t, mag, freq)
    d = self.decide_beat(i, t, track, beatsdrop, params)
    self.intermediate.append("decision", d, index=i)
    if not d:
      return self.output_params(params)
    return self.output_beat_params(beatsdrop.params_)
'''))
rw("output", "C22", (DEC, '''    a0, a1, f0, f1, d0, d1, p0, p1 = beat_params
    return ((f0, d0, a0, p0), (f1, d1, a1, p1))
''', '''    b = tuple(beat_params)
    return tuple((b[2 + i], b[4 + i], b[i], b[6 + i]) for i in range(2))
'''))
rw("almost", "C22", (DEC, '''    a0, a1, f0, f1, _, _, _, _ = beatsdrop.params_

    d = self.intermediate.append("test", np.abs((f0 - f1, a0, a1)), index=i)
    return np.all(self._not_amost_zero(d))
''', '''    a0, a1, f0, f1 = beatsdrop.params_[:4]
    test = np.abs(np.array([f0 - f1, a0, a1]))
    self.intermediate.append("test", test, index=i)
    return np.min(test) > self._th
'''))
rw("hinge-bounds", "C10", (H, '''    if len(x) <= 1:
      raise ValueError(f"Got a track of length={len(x)}. "
                       "Consider increasing the minimum sine length")
    else:
      a_min = np.min(x)
      a_max = np.max(x)
    if a_min == a_max:
      a_min -= 1
      a_max += 1

    # Intercept bounds
    dq = np.max(np.abs(y - q)) or 1
    q_min = q - dq
    q_max = q + dq

    # Slope bounds
    if k == 0:
      k_min = -1
      k_max = 1
    else:
      k_min = 8 * k if k < 0 else k
      k_max = k if k < 0 else 8 * k
''', '''    n = len(x)
    if n < 2:
      raise ValueError(f"Got a track of length={n}. "
                       "Consider increasing the minimum sine length")
    a_min, a_max = np.min(x), np.max(x)
    if a_max <= a_min:
      a_min, a_max = a_min - 1, a_max + 1

    # Intercept bounds
    dq = np.max(np.abs(q - y))
    if dq == 0:
      dq = 1
    q_min, q_max = q - dq, q + dq

    # Slope bounds
    if k == 0:
      k_min, k_max = -1, 1
    elif k > 0:
      k_min, k_max = k, 8 * k
    else:
      k_min, k_max = 8 * k, k
'''))
rw("hinge-fit", "C10", (H, '''    self.coeffs_ = self.coeffs_init(x, y, lin_k, lin_q)

    self.result_ = optimize.least_squares(fun=self._residual(x, y),
                                          x0=self.coeffs_,
                                          bounds=self.bounds(
                                              x, y, lin_k, lin_q),
                                          method=self.method,
                                          **kwargs)
    self.coeffs_ = self.result_.x
''', '''    x0 = self.coeffs_init(x, y, lin_k, lin_q)
    bounds = self.bounds(x, y, lin_k, lin_q)
    res = optimize.least_squares(self._residual(x, y),
                                 x0,
                                 bounds=bounds,
                                 method=self.method,
                                 **kwargs)
    self.result_ = res
    self.coeffs_ = res.x
'''))
rw("db2a", "C14", (DP, '''  np.true_divide(d, 20.0, out=out)
  return np.power(10.0, out, out=out)
''', '''  np.divide(d, 20, out=out)
  np.power(10.0, out, out=out)
  return out
'''))
rw("a2db", "C14", (DP, '''  if floor is None:
    return a2db.floorless(a, out=out)
  if floor_db:
    floor = db2a(floor)
  return a2db.floored(a, floor, out=out)
''', '''  if floor is not None:
    f = db2a(floor) if floor_db else floor
    return a2db.floored(a, f, out=out)
  return a2db.floorless(a, out=out)
'''))
rw("a2db-inline", "C14", (DP, '''  np.maximum(a, f, out=out)
  return _a2db_floorless(out, out=out)
''', '''  np.maximum(a, f, out=out)
  np.log10(out, out=out)
  out *= 20
  return out
'''))
rw("complex2db", "C14 C08", (DP, '''  np.abs(c, out=out)
  return a2db(out, out=out, **kwargs)
''', '''  np.absolute(c, out=out)
  a2db(out, out=out, **kwargs)
  return out
'''))
rw("bisect", "C32", (DP, '''  f_lo = func(lo)
  f_hi = func(hi)
  if (f_lo > 0 and f_hi > 0) or (f_lo < 0 and f_hi < 0):
''', '''  f_lo, f_hi = func(lo), func(hi)
  same_sign = min(f_lo, f_hi) > 0 or max(f_lo, f_hi) < 0
  if same_sign:
'''), (DP, '''  a = (lo + hi) / 2
  for _ in range(steps):
    f_a = func(a)
    if f_a < 0:
      lo = a
    elif f_a > 0:
      hi = a
    else:
      break
    a = (lo + hi) / 2
  return a
''', '''  a = 0.5 * (lo + hi)
  for _ in range(steps):
    f_a = func(a)
    if f_a == 0:
      return a
    if f_a > 0:
      hi = a
    else:
      lo = a
    a = 0.5 * (lo + hi)
  return a
'''))
rw("bisect-while", "C32", (DP, '''  a = (lo + hi) / 2
  for _ in range(steps):
    f_a = func(a)
    if f_a < 0:
      lo = a
    elif f_a > 0:
      hi = a
    else:
      break
    a = (lo + hi) / 2
  return a
''', '''  a = (lo + hi) / 2
  n = 0
  while n < steps:
    f_a = func(a)
    if f_a < 0:
      lo = a
    elif f_a > 0:
      hi = a
    else:
      break
    a = (lo + hi) / 2
    n += 1
  return a
'''))
rw("f2bin", "C34", (DP, '''  return np.ceil(np.multiply(f, nfft / fs)).astype(int)
''', '''  bins = np.multiply(f, nfft / fs)
  bins = np.ceil(bins)
  return bins.astype(int)
'''))
rw("lomb", "C34", (DP, '''  w = np.arange(n, dtype=float)
  bin2f(w, nfft=nfft, fs=fs, out=w)
  np.multiply(2 * np.pi, w, out=w)
''', '''  w = 2 * np.pi * bin2f(np.arange(n), nfft=nfft, fs=fs)
'''), (DP, '''  i, j = f2bin((0 if hpf is None else hpf, fs if lpf is None else lpf),
               nfft=nfft,
               fs=fs)
  i_ = max(i, 1)
  j = min(j, n)
''', '''  if hpf is None:
    hpf = 0
  if lpf is None:
    lpf = fs
  i, j = f2bin((hpf, lpf), nfft, fs)
  i_ = i if i > 1 else 1
  j = n if j > n else j
'''), (DP, '''  np.true_divide(w, 2 * np.pi, out=w)
  return ls, w
''', '''  return ls, w / (2 * np.pi)
'''))
rw("autoc", "C34", (DP, '''    a = np.multiply(a, np.conjugate(a)).real
  return (np.fft.irfft if real else np.fft.ifft)(a, n=nfft)[:n]
''', '''    a = np.real(a * np.conj(a))
  if real:
    r = np.fft.irfft(a, n=nfft)
  else:
    r = np.fft.ifft(a, n=nfft)
  return r[:n]
'''))
rw("autoc-abs", "C34", (DP, '''    a = np.multiply(a, np.conjugate(a)).real
''', '''    a = np.abs(a)**2
'''))
rw("windows", "C07 C17", (DP, '''  a_lin = np.reshape(a, newshape=(-1,))
  if hop is None:
    hop = wsize
  # Stride for a single memory cell
  cell_stride, = a_lin.strides
  return np.lib.stride_tricks.as_strided(a_lin,
                                         shape=(n_windows(a_lin.size,
                                                          wsize=wsize,
                                                          hop=hop), wsize),
                                         strides=np.array(
                                             (hop, 1), dtype=int) * cell_stride,
                                         writeable=writeable)
''', '''  a_lin = np.ravel(a)
  hop = wsize if hop is None else hop
  n = n_windows(a_lin.size, wsize, hop)
  cell = a_lin.strides[0]
  return np.lib.stride_tricks.as_strided(a_lin,
                                         shape=(n, wsize),
                                         strides=(hop * cell, cell),
                                         writeable=writeable)
'''))
rw("nwin", "C07 C17", (DP, '''  return max(0, 1 + (input_size - wsize) // hop)
''', '''  if input_size < wsize:
    return 0
  return (input_size - wsize) // hop + 1
'''))
rw("sconv", "C17", (DP, '''  a = overlapping_windows(x, wsize=np.size(kernel), hop=stride)
  b = np.reshape(kernel[::-1], newshape=(-1, 1))
  return np.matmul(a, b, out=out)
''', '''  n = np.size(kernel)
  b = np.flip(kernel).reshape((n, 1))
  return np.matmul(overlapping_windows(x, n, stride), b, out=out)
'''))
rw("sconvc", "C17", (DP, '''  for p in (np.real, np.imag):
    strided_convolution(x=x,
                        kernel=p(kernel),
                        stride=stride,
                        out=np.reshape(p(out), newshape=(-1, 1)))
  return out
''', '''  out_re = np.reshape(out.real, newshape=(-1, 1))
  out_im = np.reshape(out.imag, newshape=(-1, 1))
  strided_convolution(x, kernel.real, stride, out_re)
  strided_convolution(x, kernel.imag, stride, out_im)
  return out
'''))
rw("flux", "C31", (DP, '''  a = np.abs(x)
  delta = np.diff(a, axis=-1)
  np.maximum(delta, 0, out=delta)
  return np.sum(delta, axis=0, out=delta[0, :])
''', '''  mag = np.abs(x)
  delta = mag[..., 1:] - mag[..., :-1]
  return np.sum(np.maximum(delta, 0), axis=0)
'''))
rw("maxima", "C31", (DP, '''  np.greater_equal(x_flat[w:-w],
                   maxima,
                   out=maxima if logical_and else out[w:-w])
  if logical_and:
    np.logical_and(maxima, out[w:-w], out=out[w:-w])
  out[:w] = False
''', '''  is_max = x_flat[w:-w] >= maxima
  if logical_and:
    out[w:-w] = np.logical_and(is_max, out[w:-w])
  else:
    out[w:-w] = is_max
  out[:w] = False
'''))
rw("onset-g", "C31", (DP, '''  for index in np.ndindex(*x.shape):
    f = x[index]
    out[index] = g = max(f, alpha * g + alpha_ * f)
  return out
''', '''  for index in np.ndindex(*x.shape):
    smoothed = alpha * g + alpha_ * x[index]
    g = x[index] if x[index] > smoothed else smoothed
    out[index] = g
  return out
'''))
rw("onset-sel", "C31", (DP, '''  tmp = _onset_selection_g(x_n, alpha=alpha)
  # pylint: disable=E1136 (false positive)
  np.greater_equal(x_n[1:], tmp[:-1], out=ons[1:])

  tmp = _onset_selection_m(x_n, w=w, m=m, delta=delta, out=tmp)
  np.greater_equal(x_n, tmp, out=tmp)
  np.logical_and(ons, tmp, out=ons)
''', '''  g = _onset_selection_g(x_n, alpha=alpha)
  ons[1:] = x_n[1:] >= g[:-1]

  th = _onset_selection_m(x_n, w=w, m=m, delta=delta)
  ons &= x_n >= th
'''))
rw("onset-det", "C31", (DP, '''  ons_idx = np.flatnonzero(ons_subs)
  ons_idx = np.multiply(ons_idx, x.size, out=ons_idx)
  ons_idx_f = ons_idx / f.size
  np.floor(ons_idx_f, out=ons_idx_f)
  ons = np.zeros(x.size, dtype=bool)
  ons[ons_idx_f.astype(int)] = True
  return ons''', '''  ons_idx = np.flatnonzero(ons_subs)
  ons = np.zeros(x.size, dtype=bool)
  ons[(ons_idx * x.size) // f.size] = True
  return ons'''))
BI, UT = "sample/beatsdrop/__init__.py", "sample/utils/__init__.py"
rw("beat-bounds", "C21", (REG, '''    if a_min == a_max:
      a_min = 0.0
      if a_min == a_max:
        a_max = 1.0
      a_max = max(a_max, *p[:2])
    else:
      a_max = max(a_max, *p[:2])
      a_min = min(a_min, *p[:2])
      a_d = a_max - a_min
      a_max += a_d
      a_min = max(0.0, a_min - a_d)
''', '''    a0, a1 = p[0], p[1]
    if a_min != a_max:
      a_max = max((a_max, a0, a1))
      a_min = min((a_min, a0, a1))
      a_d = a_max - a_min
      a_min, a_max = max(0.0, a_min - a_d), a_max + a_d
    else:
      a_min = 0.0
      a_max = max(a0, a1, a_max if a_max != 0 else 1.0)
'''), (REG, '''    df = min(f_max - f_min, 1)
    f_max = max(*p[2:4], f_max) + df
    f_min = min(*p[2:4], f_min) - df
''', '''    f0, f1 = p[2:4]
    df = f_max - f_min if f_max - f_min < 1 else 1
    f_min = min(f0, f1, f_min) - df
    f_max = max(f0, f1, f_max) + df
'''))
rw("beat-hyp", "C21", (REG, '''      hypoteses = (
          self.params_,
          (
              *self.params_[:2],  #     a0 a1
              *self.params_[3:1:-1],  # f1 f0
              *self.params_[4:6],  #    d0 d1
              *self.params_[7:5:-1],  # p1 p0
          ),
      )
''', '''      a0, a1, f0, f1, d0, d1, p0, p1 = self.params_
      hypoteses = (self.params_, (a0, a1, f1, f0, d0, d1, p1, p0))
'''), (REG, '''        res = self.res_fn_(p)
        np.square(res, out=res)
        return np.sum(res)

      self.params_ = min(hypoteses, key=_ssr)
''', '''        return np.sum(np.square(self.res_fn_(p)))

      first, second = hypoteses
      if _ssr(second) < _ssr(first):
        self.params_ = second
'''))
rw("beat-init", "C21", (REG, '''    am_freq, _ = sms_dsp.peak_detect_interp(corr)
    am_freq = 0 if len(am_freq) == 0 else model.fs / (2 * am_freq[0])
    f0 = carrier_freq + am_freq
    f1 = carrier_freq - am_freq
''', '''    peaks = sms_dsp.peak_detect_interp(corr)[0]
    if len(peaks):
      am_freq = 0.5 * model.fs / peaks[0]
    else:
      am_freq = 0
    f0, f1 = carrier_freq + am_freq, carrier_freq - am_freq
'''))
rw("beat-sort", "C21", (REG, '''  is_descending: bool = np.argmin(key(p)).astype(bool)
  if descending ^ is_descending:
    p = (p[1], p[0], p[3], p[2], p[5], p[4], p[7], p[6])
  return p
''', '''  k0, k1 = key(p)
  is_descending = bool(k1 < k0)
  if is_descending == bool(descending):
    return p
  a0, a1, f0, f1, d0, d1, p0, p1 = p
  return a1, a0, f1, f0, d1, d0, p1, p0
'''))
rw("beat-feasible", "C21", (REG, '''    feasible = np.logical_and(np.less(self.bounds_[0], self.initial_params_),
                              np.less(self.initial_params_, self.bounds_[1]))
''', '''    lo, hi = self.bounds_
    x0s = np.array(self.initial_params_)
    feasible = np.logical_and(lo < x0s, x0s < hi)
'''))
rw("beat-am", "C20", (BI, '''    phase = np2pg.multiply.op(self._graph["w_hat"], self._graph["t"])
    phase = np2pg.add.op(phase, self._graph["p_hat"])
    modulant = np2pg.square.op(np2pg.cos.op(phase))
    am_range = np2pg.subtract.op(self._graph["a_oln2"], self._graph["a_hat2"])
    self._graph["alpha2"] = np2pg.add.op(np2pg.multiply.op(am_range, modulant),
                                         self._graph["a_hat2"])
''', '''    phase = np2pg.multiply.op(self._graph["t"], self._graph["w_hat"])
    phase = np2pg.add.op(self._graph["p_hat"], phase)
    c = np2pg.cos.op(phase)
    modulant = np2pg.multiply.op(c, c)
    am_range = np2pg.multiply.op(self._graph["a0"], self._graph["a1"])
    self._graph["alpha2"] = np2pg.add.op(self._graph["a_hat2"],
                                         np2pg.multiply.op(modulant, am_range))
'''))
rw("beat-decay", "C20", (BI, '''    np.multiply(self._k, t, out=out)
    np.exp(out, out=out)
    np.multiply(self._a, out, out=out)
    return out
''', '''    np.multiply(t, self._k, out=out)
    np.exp(out, out=out)
    return np.multiply(out, self._a, out=out)
'''))
rw("beat-foc", "C20", (BI, '''  if callable(foc):
    if t is None:
''', '''  if not callable(foc):
    return foc
  else:
    if t is None:
'''))
rw("starmap", "C23", (TR, '''    if tot is not None:
      self.progress_start(tot)
    for i in self.starmap(func, it):
      yield i
      self.progress_update()
    if tot is not None:
      self.progress_stop()
''', '''    known = tot is not None
    if known:
      self.progress_start(tot)
    results = self.starmap(func, it)
    for res in results:
      yield res
      self.progress_update()
    if known:
      self.progress_stop()
'''))
rw("poolmap", "C23", (TR, '''  results = [pool.apply_async(func, args=args, **kwargs) for args in iterable]
  not_ready = results.copy()
  while not_ready:
    fit_args.progress_update(len(results) - len(not_ready))
    if refresh_time:
      not_ready[0].wait(refresh_time)
    not_ready = [r for r in not_ready if not r.ready()]
  return (r.get() for r in results)
''', '''  results = []
  for args in iterable:
    results.append(pool.apply_async(func, args, **kwargs))
  not_ready = list(results)
  while len(not_ready) > 0:
    done = len(results) - len(not_ready)
    fit_args.progress_update(done)
    if refresh_time:
      not_ready[0].wait(refresh_time)
    not_ready = list(filter(lambda r: not r.ready(), not_ready))
  return [r.get() for r in results]
'''))
rw("wrap", "C23", (TR, '''  try:
    original = model.get_params(deep=True)[key]
  except KeyError:
    yield
  else:
    managed''', '''  model_params = model.get_params(deep=True)
  if key not in model_params:
    yield
  else:
    original = model_params[key]
    managed'''))
rw("ctx-flat", "C23", (TR, '''  with _wrap_as_managed(mp_manager, model, "beat_decisor__intermediate",
                        "sinusoidal__intermediate"):
    fit_args_ = copy.copy(fit_args)
    if pool is not None:
      fit_args_.starmap = functools.partial(_progress_starmap, pool, fit_args_)
    yield fit_args_
''', '''  with _wrap_as_managed(mp_manager, model, "beat_decisor__intermediate"):
    with _wrap_as_managed(mp_manager, model, "sinusoidal__intermediate"):
      fit_args_ = copy.copy(fit_args)
      fit_args_.starmap = functools.partial(_progress_starmap, pool, fit_args_)
      yield fit_args_
'''))
rw("kwarg", "C24", (UT, '''  params = list(filter(lambda p: p.name != name, sig.parameters.values()))
  i = len(params)
  if i > 0 and params[-1].kind == inspect.Parameter.VAR_KEYWORD:
    i -= 1
''', '''  params = [p for p in sig.parameters.values() if p.name != name]
  i = len(params)
  if params and params[-1].kind is inspect.Parameter.VAR_KEYWORD:
    i = i - 1
'''))
rw("variants", "C24", (UT, '''    k = kwargs.pop(key, default)
    try:
      foo = func_dict[k]
    except KeyError as e:
      raise ValueError(
          f"{func.__name__}: unsupported option '{k}' for argument '{key}'. "
          f"Supported options are: {comma_join_quote(func_dict)}") from e
    return foo(*args, **kwargs)
''', '''    k = kwargs.pop(key) if key in kwargs else default
    if k not in func_dict:
      raise ValueError(
          f"{func.__name__}: unsupported option '{k}' for argument '{key}'. "
          f"Supported options are: {comma_join_quote(func_dict)}")
    return func_dict[k](*args, **kwargs)
'''))
rw("npout", "C14 C24", (UT, '''    nd = None
    s, a, args = _get_args(args)
    if kwargs.get(key, None) is None:
      nd = np.ndim(a)
      kwargs[key] = np.empty(() if nd == 0 else np.shape(a),
                             dtype=_get_dtype((a, *args), kwargs))
    out = func(*s, a, *args, **kwargs)
    return out if nd is None or nd != 0 else out[()]
''', '''    s, a, args = _get_args(args)
    allocate = kwargs.get(key) is None
    if allocate:
      dt = _get_dtype((a, *args), kwargs)
      kwargs[key] = np.empty(np.shape(a), dtype=dt)
    out = func(*s, a, *args, **kwargs)
    if allocate and np.ndim(a) == 0:
      return out[()]
    return out
'''))
rw("deprec", "C24", (UT, '''          new_key__ = new_key_
          if convert is not None:
            new_key__, x = convert(*args, **kwargs)
            kwargs.pop(old_key_)
            kwargs[new_key__] = x
          elif''', '''          new_key__ = new_key_
          if convert is not None:
            new_key__, x = convert(*args, **kwargs)
            del kwargs[old_key_]
            kwargs[new_key__] = x
          elif'''))
rw("defkws", "C24", (UT, '''  d = {} if d is None else d.copy()
  for k, v in kwargs.items():
    d[k] = d.get(k, v)
  return d''', '''  if d is None:
    d = {}
  return {**kwargs, **d}'''))
rw("warnf", "C24", (UT, '''    if toggle is not None and not kws.pop(*toggle):
      return func(*ars, **kws)
    with ctx_fn() as y:''', '''    active = True
    if toggle is not None:
      k, default = toggle
      active = kws.pop(k, default)
    if not active:
      return func(*ars, **kws)
    with ctx_fn() as y:'''))
LE, ME, RA, OP = ("sample/utils/learn.py", "sample/evaluation/metrics.py",
                  "sample/evaluation/random.py", "sample/optimize.py")
rw("storage", "C25 C23", (LE, '''    if self.save:
      if not hasattr(self, "cache_"):
        self.cache_ = {}
      if key not in self.cache_:
        self.cache_[key] = []
      if index is None:
        self.cache_[key].append(value)
      else:
        if index >= len(self.cache_[key]):
          self.cache_[key].extend(
              itertools.repeat(None, index + 1 - len(self.cache_[key])))
        self.cache_[key][index] = value
    return value
''', '''    if not self.save:
      return value
    if not hasattr(self, "cache_"):
      self.cache_ = {}
    values = self.cache_.setdefault(key, [])
    if index is None:
      values.append(value)
      return value
    while len(values) <= index:
      values.append(None)
    values[index] = value
    return value
'''))
rw("storage2", "C25 C23", (LE, '''        if index >= len(self.cache_[key]):
          self.cache_[key].extend(
              itertools.repeat(None, index + 1 - len(self.cache_[key])))
        self.cache_[key][index] = value
''', '''        values = self.cache_[key]
        missing = index + 1 - len(values)
        if missing > 0:
          values += [None] * missing
        values[index] = value
'''))
rw("storage3", "C25 C23", (LE, '''    s = self.cache_ if hasattr(self, "cache_") else {}
    return copy.deepcopy(s) if deepcopy else s
''', '''    s = getattr(self, "cache_", {})
    if deepcopy:
      s = copy.deepcopy(s)
    return s
'''))
rw("default-prop", "C25", (LE, '''    if self.fdef(parent, v):
      v = self._default_fn(parent)
    return setattr(parent, self._attr_name, v)
''', '''    value = self._default_fn(parent) if self.fdef(parent, v) else v
    setattr(parent, self._attr_name, value)
'''))
rw("lp", "C26", (ME, '''  tmp = np.empty_like(x, dtype=np.result_type(x, y, float))
  np.subtract(x, y, out=tmp, dtype=tmp.dtype)
  np.abs(tmp, out=tmp)
  if p != 1:
    np.power(tmp, p, out=tmp)
  d = np.sum(tmp)
  if p != 1:
    d = np.power(d, 1 / p)
  return d
''', '''  dtype = np.result_type(x, y, float)
  diff = np.abs(np.subtract(x, y, dtype=dtype))
  if p == 1:
    return np.sum(diff)
  return np.power(np.sum(np.power(diff, p)), 1 / p)
'''))
rw("linlog", "C26", (ME, '''  _, _, x_stft = signal.stft(x,
                             window=w,
                             nperseg=np.size(w),
                             nfft=n,
                             noverlap=noverlap,
                             **kwargs)
  _, _, y_stft = signal.stft(y,
                             window=w,
                             nperseg=np.size(w),
                             nfft=n,
                             noverlap=noverlap,
                             **kwargs)
  x_stft = np.abs(x_stft)
  y_stft = np.abs(y_stft)
  loss = lp_distance(x_stft, y_stft, p=norm_p)
  utils.dsp.a2db(x_stft, out=x_stft, floor=floor_db, floor_db=True)
  utils.dsp.a2db(y_stft, out=y_stft, floor=floor_db, floor_db=True)
  loss += alpha * lp_distance(x_stft, y_stft, p=norm_p)
  return loss
''', '''  def magnitude(s):
    return np.abs(
        signal.stft(s,
                    window=w,
                    nperseg=np.size(w),
                    nfft=n,
                    noverlap=noverlap,
                    **kwargs)[2])

  x_mag, y_mag = magnitude(x), magnitude(y)
  x_db = utils.dsp.a2db(x_mag, floor=floor_db, floor_db=True)
  y_db = utils.dsp.a2db(y_mag, floor=floor_db, floor_db=True)
  lin = lp_distance(x_mag, y_mag, p=norm_p)
  log = lp_distance(x_db, y_db, p=norm_p)
  return lin + alpha * log
'''))
rw("msl", "C26", (ME, '''        it = (f(*args, **kwargs) for f in self.funcs)
''', '''        tot = 0
        for f in self.funcs:
          tot += f(*args, **kwargs)
        return tot
'''))
rw("msl2", "C26", (ME, '''      results = [pool.apply_async(f, args, kwargs) for f in self.funcs]
      it = (r.get() for r in results)
''', '''      results = []
      for f in self.funcs:
        results.append(pool.apply_async(f, args, kwargs))
      it = [r.get() for r in results]
'''))
rw("rnd-amps", "C27", (RA, '''    dsp_utils.db2a(a, out=a)
    if self.onlybeat:
      a[-1] = 0
    np.multiply(a, self.sine_amp / np.sum(a), out=a)
    return a
''', '''    a = dsp_utils.db2a(a)
    if self.onlybeat:
      a[2] = 0
    return a * self.sine_amp / np.sum(a)
'''))
rw("rnd-decays", "C27", (RA, '''    d = self.rng.exponential(scale=self.decay - self.decay_min, size=3)
    np.add(d, self.decay_min, out=d)
    return d
''', '''    extra = self.rng.exponential(self.decay - self.decay_min, 3)
    return extra + self.decay_min
'''))
rw("rnd-beta", "C27", (RA, '''    x *= right - left
    x += left
    x *= 2.0 * (self.rng.uniform(0, 1) <= positive) - 1.0
    return x
''', '''    x = left + x * (right - left)
    if self.rng.uniform(0, 1) <= positive:
      return x
    return -x
'''))
rw("rnd-audio", "C27", (RA, '''    n = int(dur * fs)
    x = sample.sample.additive_synth(np.arange(n) / fs,
                                     freqs=freqs,
                                     decays=decays,
                                     amps=amps,
                                     phases=phases)
    x += self.noise(nsamples=n)
    return x, fs, (freqs, decays, amps, phases)
''', '''    n = int(dur * fs)
    t = np.arange(n) / fs
    x = sample.sample.additive_synth(t, freqs, decays, amps, phases=phases)
    x = x + self.noise(nsamples=n)
    params = (freqs, decays, amps, phases)
    return x, fs, params
'''))
rw("rnd-rep", "C27", (RA, '''    n = kwargs.pop(key, None)
    x = [func(*args, **kwargs) for _ in range(1 if n is None else n)]
    return x[0] if n is None else x
''', '''    n = kwargs.pop(key, None)
    if n is None:
      return func(*args, **kwargs)
    x = []
    for _ in range(n):
      x.append(func(*args, **kwargs))
    return x
'''))
rw("rnd-amp", "C27", (RA, '''    return self.snr_amp / (1 + self.snr_amp)
''', '''    return 1 - self.noise_amp
'''))
rw("remap", "C28", (OP, '''  if sinusoidal__log_n is not None and \\
    "sinusoidal__n" not in kwargs:
    kwargs["sinusoidal__n"] = 1 << sinusoidal__log_n
''', '''  if sinusoidal__log_n is not None:
    kwargs.setdefault("sinusoidal__n", 2**sinusoidal__log_n)
'''), (OP, '''    hopsize = int((1 - sinusoidal__overlap) * wsize)
    hopsize = max(min(hopsize, wsize), 1)
    kwargs["sinusoidal__tracker__h"] = hopsize
''', '''    hopsize = int(wsize * (1 - sinusoidal__overlap))
    kwargs["sinusoidal__tracker__h"] = min(max(hopsize, 1), wsize)
'''))
rw("opt-kwargs", "C28", (OP, '''    if len(args) != len(self.dimensions):
      raise ValueError(f"Expected {len(self.dimensions)} "
                       f"positional arguments, got {len(args)}")
    remap = dict if self.remap is None else self.remap
    return remap(**dict(zip(self.dimensions, args)), **kwargs)
''', '''    n = len(self.dimensions)
    if n != len(args):
      raise ValueError(f"Expected {n} "
                       f"positional arguments, got {len(args)}")
    named = {k: v for k, v in zip(self.dimensions.keys(), args)}
    if self.remap is None:
      return dict(**named, **kwargs)
    return self.remap(**named, **kwargs)
'''))
rw("opt-loss", "C28", (OP, '''      model = base.clone(self.model)
      model.set_params(**self._kwargs(
          *args, **kwargs, sinusoidal__tracker__fs=sinusoidal__tracker__fs))
      model.fit(x)
      y =''', '''      params = self._kwargs(*args,
                            sinusoidal__tracker__fs=sinusoidal__tracker__fs,
                            **kwargs)
      model = base.clone(self.model).set_params(**params).fit(x)
      y ='''))
rw("opt-gp", "C28", (OP, '''    model = base.clone(self.model)
    model.set_params(**self._kwargs(*res.x, sinusoidal__tracker__fs=fs))
    model.fit(x, **utils.default_kws(fit_kws))
    return model, res
''', '''    best = self._kwargs(*res.x, sinusoidal__tracker__fs=fs)
    model = base.clone(self.model)
    model.set_params(**best)
    if fit_kws is None:
      fit_kws = {}
    model.fit(x, **fit_kws)
    return model, res
'''))
ST, AL, PS, CL, YA = ("sample/widgets/settings.py",
                      "sample/widgets/audioload.py", "sample/psycho.py",
                      "scripts/utils/make_changelog.py",
                      "scripts/utils/yapf_nbformat.py")
rw("strip-parse", "C29", (ST, '''  if not x > 0:
    return None
  return x
''', '''  return x if x > 0 else None
'''))
rw("clip", "C29", (ST, '''    if left is not None:
      x = max(left, x)
    if right is not None:
      x = min(right, x)
    return x

  return float_clip_''', '''    if left is not None and not x > left:
      x = left
    if right is not None and not x < right:
      x = right
    return x

  return float_clip_'''))
rw("posint", "C29", (ST, '''  try:
    return int(max(float(x), 1))
  except (ValueError, OverflowError):
    return dflt
''', '''  try:
    v = float(x)
    v = v if v > 1 or v != v else 1
    return int(v)
  except (ValueError, OverflowError):
    return dflt
'''))
rw("bool", "C29", (ST, '''  if x.lower() in ("false", "f", ""):
    return False
  try:
    x = float(x)
  except ValueError:
    return True
  return bool(x)
''', '''  low = x.lower()
  if low == "" or low == "f" or low == "false":
    return False
  try:
    return float(x) != 0
  except ValueError:
    return True
'''))
rw("fbound", "C29", (ST, '''  if smfb_0 > smfb_1:
    smfb_0, smfb_1 = (smfb_1, smfb_0)
  elif not smfb_0 < smfb_1:
    smfb_0 = 20
    smfb_1 = 16000
''', '''  if smfb_1 < smfb_0:
    lo, hi = smfb_1, smfb_0
  elif smfb_0 < smfb_1:
    lo, hi = smfb_0, smfb_1
  else:
    lo, hi = 20, 16000
  smfb_0, smfb_1 = lo, hi
'''))
rw("windows-pp", "C29", (ST, '''  w = None
  wsize = min(wsize, sinusoidal__n)
  while True:
    try:
      w = signal.get_window(window=wtype, Nx=wsize)
    except ValueError:
      if wsize < 1:
        wsize = 4096
      else:
        wtype = "blackman"
      continue
    else:
      break
''', '''  if wsize > sinusoidal__n:
    wsize = sinusoidal__n
  w = None
  while w is None:
    try:
      w = signal.get_window(wtype, wsize)
    except ValueError:
      if wsize >= 1:
        wtype = "blackman"
      else:
        wsize = 4096
'''))
rw("apply", "C29", (ST, '''      kw = {}
      tp = {}
      for k, v in params.items():
        d = kw if k in keys else tp
        d[k] = v
      sett_update, param_update = func(**kw)
      for k, v in sett_update.items():
        settings[k] = v
      for k, v in param_update.items():
        tp[k] = v
      params = tp
''', '''      kw = {k: v for k, v in params.items() if k in keys}
      tp = {k: v for k, v in params.items() if k not in keys}
      sett_update, param_update = func(**kw)
      settings.update(sett_update)
      tp.update(param_update)
      params = tp
'''))
rw("multiproc", "C29", (ST, '''  out_kw = {"n_jobs": n_jobs if parallel else 0}
''', '''  jobs = 0
  if parallel:
    jobs = n_jobs
  out_kw = dict(n_jobs=jobs)
'''))
rw("autotrim", "C30", (AL, '''    if onsets.size == 0:
      onsets = (0,)
    onsets = np.array([*onsets, self.audio_x.size])
    onset_max_i = np.argmax(np.diff(onsets)).flatten()[0]
    self.audio_trim_stop = onsets[onset_max_i + 1]
    self.audio_trim_start = onsets[onset_max_i]
''', '''    if len(onsets) == 0:
      onsets = [0]
    bounds = np.concatenate((onsets, [self.audio_x.size]))
    longest = int(np.argmax(np.diff(bounds)))
    self.audio_trim_start = bounds[longest]
    self.audio_trim_stop = bounds[longest + 1]
'''))
rw("settrim", "C30", (AL, '''      if start:
        self.audio_trim_start = min(self.audio_trim_stop - 1, max(0, value))
''', '''      if start:
        value = 0 if value < 0 else value
        last = self.audio_trim_stop - 1
        self.audio_trim_start = value if value < last else last
'''))
rw("loadaudio", "C30", (AL, '''          half_range = (info.max - info.min + 1) / 2
          x = (x - (info.min + half_range)) / half_range
''', '''          half_range = (info.max - info.min + 1) / 2
          centre = info.min + half_range
          x = x / half_range - centre / half_range
'''))
rw("vercmp", "C33", (CL, '''  for i, j in itertools.zip_longest(u, v):
    if i == j:
      if i is None:
        break
      else:
        continue
    if i is None:
      return -1
    if j is None:
      return 1
    return -1 if i < j else 1
  return 0
''', '''  if u == v:
    return 0
  return -1 if u < v else 1
'''))
rw("vercmp2", "C33", (CL, '''  for i, j in itertools.zip_longest(u, v):
    if i == j:
      if i is None:
        break
      else:
        continue
    if i is None:
      return -1
    if j is None:
      return 1
    return -1 if i < j else 1
  return 0
''', '''  for i, j in zip(u, v):
    if i != j:
      return -1 if i < j else 1
  if len(u) == len(v):
    return 0
  return -1 if len(u) < len(v) else 1
'''))
rw("wrap", "C33", (YA, '''  indent = "".join(itertools.takewhile(lambda c: c.isspace(), s))
  cmd = s[len(indent):]
  return f"{indent}pass''', '''  cmd = s.lstrip()
  indent = s[:len(s) - len(cmd)]
  return f"{indent}pass'''))
rw("unwrap", "C33", (YA, '''  cmd = s[(len(indent) + 8):-len(_command_escape_comment)]
  return indent + cmd
''', '''  start = len(indent) + len("pass  # ")
  stop = len(s) - len(_command_escape_comment)
  return f"{indent}{s[start:stop]}"
'''))
rw("zwicker", "C15", (PS, '''  tmp = np.empty_like(out)
  np.multiply(7.6e-4, f, out=tmp)
  np.arctan(tmp, out=tmp)
  np.multiply(13.0, tmp, out=tmp)
''', '''  tmp = 13.0 * np.arctan(np.multiply(7.6e-4, f))
'''))
rw("traun", "C15", (PS, '''  tmp = np.empty_like(out)
  np.add(1960.0, f, out=tmp)
  # (26.81 * f / (1960.0 + f)) - 0.53
  np.multiply(26.81, f, out=out)
  np.true_divide(out, tmp, out=out)
  return np.subtract(out, 0.53, out=out)
''', '''  den = np.add(f, 1960.0)
  np.true_divide(f, den, out=out)
  out *= 26.81
  out -= 0.53
  return out
'''))
rw("cams-lin", "C15", (PS, '''  k = np.empty_like(out)
  np.subtract(c, 43, out=k)
  np.true_divide(k, 11.17, out=k)
  np.exp(k, out=k)
  # f = (312 - 14675 * k) / (k - 1)
  np.multiply(14675, k, out=out)
  np.subtract(312, out, out=out)
  np.subtract(k, 1, out=k)
  return np.true_divide(out, k, out=out)
''', '''  k = np.exp(np.subtract(c, 43) / 11.17)
  return np.true_divide(14675 * k - 312, 1 - k, out=out)
'''))
rw("aweight", "C16", (PS, '''  f2 = np.empty_like(out)
  np.square(f, out=f2)
  # f^2 + 107.7^2
  np.add(f2, 11599.29, out=out)
  # (f^2 + 107.7^2) (f^2 + 737.9^2)
  tmp = np.empty_like(out)
  np.multiply(out, np.add(f2, 544496.41, out=tmp), out=out)
  # sqrt((f^2 + 107.7^2) (f^2 + 737.9^2))
  np.sqrt(out, out=out)
''', '''  f2 = np.multiply(f, f, out=np.empty_like(out))
  tmp = np.add(f2, 544496.41, out=np.empty_like(out))
  np.sqrt(np.multiply(f2 + 11599.29, tmp, out=out), out=out)
'''))
rw("gt-envelope", "C18", (PS, '''    tmp = np.empty_like(t, dtype=float)
    # t + t_c
    t_ = np.empty_like(t, dtype=float)
    np.add(t, t_c, out=t_)
''', '''    t_ = np.empty_like(t, dtype=float)
    tmp = np.empty_like(t_)
    np.add(t_c, t, out=t_)
'''))
rw("gt-offsets", "C18", (PS, '''      self.offsets = self.offsets.max() - self.offsets
      self._ir_size = max(
          ir.size + off for ir, off in zip(self.irs, self.offsets))
''', '''      self.offsets = np.max(self.offsets) - self.offsets
      self._ir_size = max(
          [np.size(ir) + off for ir, off in zip(self.irs, self.offsets)])
'''))
rw("mel-filts", "C19", (PS, '''  filts = np.empty((n_filters, *np.shape(freqs)))
  for i in range(n_filters):
    filts[i, ...] = np.interp(freqs, [freqs_l[i], freqs_c[i], freqs_r[i]],
                              [0, 1, 0])
  return filts, freqs_c
''', '''  filts = np.zeros((n_filters, *np.shape(freqs)))
  for i, (l, c, r) in enumerate(zip(freqs_l, freqs_c, freqs_r)):
    filts[i, ...] = np.interp(freqs, (l, c, r), (0, 1, 0))
  return filts, freqs_c
'''))
rw("mel-filts2", "C19", (PS, '''  filts = np.empty((n_filters, *np.shape(freqs)))
  for i in range(n_filters):
    filts[i, ...] = np.interp(freqs, [freqs_l[i], freqs_c[i], freqs_r[i]],
                              [0, 1, 0])
  return filts, freqs_c
''', '''  filts = np.array([
      np.interp(freqs, [freqs_l[i], freqs_c[i], freqs_r[i]], [0, 1, 0])
      for i in range(n_filters)
  ])
  return filts, freqs_c
'''))
rw("dft", "C08", (D, '''  hw = w.size // 2

  xw = x * w
  x_z = np.zeros(n)
  x_z[:w.size - hw] = xw[hw:]
  x_z[n - hw:] = xw[:hw]

  x_fft = fft.rfft(x_z)
  ax = np.abs(x_fft)
  ax = np.maximum(ax, np.finfo(float).eps, out=ax)  # avoid zeros in log
  mx = dsp_utils.a2db.floorless(ax)

  x_fft[ax < tol] = complex(0)  # pylint: disable=E1137
  px = np.unwrap(np.angle(x_fft))
  return mx, px
''', '''  m = w.size
  left = m // 2
  right = m - left

  windowed = np.multiply(w, x)
  buffer = np.zeros(n)
  buffer[n - left:] = windowed[:left]
  buffer[:right] = windowed[left:]

  spectrum = fft.rfft(buffer)
  mag = np.maximum(np.abs(spectrum), np.finfo(float).eps)
  mx = dsp_utils.a2db.floorless(mag)

  spectrum = np.where(mag < tol, complex(0), spectrum)
  return mx, np.unwrap(np.angle(spectrum))
'''))
rw("dft-floor", "C08", (D, '''  ax = np.maximum(ax, np.finfo(float).eps, out=ax)  # avoid zeros in log
  mx = dsp_utils.a2db.floorless(ax)
''', '''  eps = np.finfo(float).eps
  mx = dsp_utils.a2db(ax, floor=eps)
  ax = np.maximum(ax, eps)
'''))
rw("peakdet", "C05", (D, '''  conditions = [
      np.greater(x[1:-1], x[2:]),  # greater than next sample
      np.greater(x[1:-1], x[:-2]),  # greater than previous sample
  ]
  if t is not None:
    conditions.append(np.greater(x[1:-1], t))  # above threshold
  return np.flatnonzero(functools.reduce(
      np.logical_and, conditions)) + 1  # compensate for skipping first sample
''', '''  mid = x[1:-1]
  is_peak = (mid > x[2:]) & (mid > x[:-2])
  if t is not None:
    is_peak &= mid > t
  return np.flatnonzero(is_peak) + 1
'''))
rw("peakdet2", "C05", (D, '''  return np.flatnonzero(functools.reduce(
      np.logical_and, conditions)) + 1  # compensate for skipping first sample
''', '''  ok = conditions[0]
  for c in conditions[1:]:
    ok = np.logical_and(ok, c)
  locations, = np.nonzero(ok)
  return 1 + locations
'''))
rw("peakdet3", "C05", (D, '''  conditions = [
      np.greater(x[1:-1], x[2:]),  # greater than next sample
      np.greater(x[1:-1], x[:-2]),  # greater than previous sample
  ]
''', '''  d = np.diff(x)
  conditions = [
      d[1:] < 0,  # greater than next sample
      d[:-1] > 0,  # greater than previous sample
  ]
'''))
rw("stft2mel", "C19", (PS, '''  p = False
  if power is not None:
    stft = np.abs(stft)
    if power != 1:
      p = True
      np.power(stft, power, out=stft)
  melspec = filterbank @ stft
  if p:
    np.power(melspec, 1 / power, out=melspec)
  return melspec, c_freqs
''', '''  if power is None:
    return filterbank @ stft, c_freqs
  mag = np.abs(stft)
  if power == 1:
    return filterbank @ mag, c_freqs
  melspec = np.matmul(filterbank, mag**power)**(1 / power)
  return melspec, c_freqs
'''))
rw("gt-conv", "C18", (PS, '''        for i, (ir, off) in enumerate(zip(self.irs, self.offsets)):
          y = convolve(x, ir, mode="full")
          # Delay is LTI, so we shift the result instead of zero-padding
          # the start of the IR in order to save computation time
          out[i, off:(off + y.size)] = y
''', '''        for i in range(len(self.irs)):
          y = convolve(x, self.irs[i], mode="full")
          start = self.offsets[i]
          out[i, start:start + y.size] = y
'''))
rw("gt-conv2", "C18", (PS, '''        ir_sizes = np.array([ir.size for ir in self.irs])
''', '''        ir_sizes = np.array(list(map(np.size, self.irs)))
'''), (PS, '''          convolve(x_pad[x_begins[i]:(x_begins[i] + x_sizes[i])],
                   ir,
                   stride=stride,
                   out=out[i:(i + 1),
                           offsets_s[i]:(offsets_s[i] + n_wins[i])].T)
''', '''          begin, size = x_begins[i], x_sizes[i]
          start = offsets_s[i]
          row = out[i:(i + 1), start:(start + n_wins[i])]
          convolve(x_pad[begin:(begin + size)], ir, stride=stride, out=row.T)
'''))

RG = "sample/beatsdrop/regression.py"
rw("c36-residual-vector", "C36 C21", (RG, '''      a_est = np.interp(t, u, beatsdrop.ModalBeat(*beat_args).am(u))
      return np.reshape(np.subtract(a_lin, a_est), newshape=(-1,))
''', '''      beat = beatsdrop.ModalBeat(*beat_args)
      return (a_lin - np.interp(t, u, beat.am(u))).ravel()
'''), (RG, '''    u = np.arange(np.ceil(t_max * self.fs).astype(int), dtype=float)
    np.true_divide(u, self.fs, out=u)
''', '''    n_u = int(np.ceil(t_max * self.fs))
    u = np.arange(n_u) / self.fs
'''))
rw("c36-dual-no-out", "C36 C21", (RG, '''      np.true_divide(f_est, 2 * np.pi, out=f_est)
      np.abs(f_est, out=f_est)
''', '''      f_est = np.abs(f_est / (2 * np.pi))
'''), (RG, '''        np.clip(f_est, q2 - max_df, q2 + max_df, out=f_est)
      f_loss = self.freq_loss(f_abs, f_est)
      np.multiply(self.freq_w, f_loss, out=f_loss)
      return np.reshape([a_loss, f_loss], newshape=(-1,))
''', '''        f_est = np.clip(f_est, q2 - max_df, q2 + max_df)
      f_loss = self.freq_w * self.freq_loss(f_abs, f_est)
      return np.concatenate((a_loss, f_loss))
'''))
rw("c36-dual-clip-helper", "C36 C21", (RG, '''        q1, q2, q3 = np.quantile(f_est, (0.25, 0.5, 0.75))
        max_df = self.freq_clip * (q3 - q1) / 2
        np.clip(f_est, q2 - max_df, q2 + max_df, out=f_est)
''', '''        self._clip_iqr(f_est, self.freq_clip)
'''), (RG, '''  def _residual_fn(self, t: np.ndarray, a: np.ndarray,
                   f: np.ndarray) -> BeatResidualFunc:
    """Residual''', '''  @staticmethod
  def _clip_iqr(x, k):
    quartiles = np.quantile(x, [0.25, 0.5, 0.75])
    half = 0.5 * k * (quartiles[2] - quartiles[0])
    x[:] = np.minimum(np.maximum(x, quartiles[1] - half), quartiles[1] + half)

  def _residual_fn(self, t: np.ndarray, a: np.ndarray,
                   f: np.ndarray) -> BeatResidualFunc:
    """Residual'''))
rw("c36-dual-separate", "C36 C21", (RG, '''      a_est, f_est = beatsdrop.ModalBeat(*beat_args).compute(t, ("am", "fm"))
      a_loss = self.amp_loss(a_lin, a_est)
''', '''      f_est, a_est = beatsdrop.ModalBeat(*beat_args).compute(t, ["fm", "am"])
      a_loss = self.amp_loss(a_lin, a_est)
'''), (RG, '''    return np.subtract(*list(map(psycho.hz2mel, (f_true, f_est))))
''', '''    return psycho.hz2mel(f_true) - psycho.hz2mel(f_est)
'''), (RG, '''      return np.reshape([a_loss, f_loss], newshape=(-1,))
''', '''      return np.hstack((a_loss, f_loss))
'''))
rw("c36-start", "C36 C21", (RG, '''    am_freq, _ = sms_dsp.peak_detect_interp(corr)
    am_freq = 0 if len(am_freq) == 0 else model.fs / (2 * am_freq[0])
''', '''    lags, _ = sms_dsp.peak_detect_interp(corr)
    if len(lags):
      am_freq = 0.5 * model.fs / lags[0]
    else:
      am_freq = 0.0
'''), (RG, '''    a0 = a1 = utils.dsp.db2a(model.q_) / 2
''', '''    a0 = 0.5 * utils.dsp.db2a(model.q_)
    a1 = a0
'''), (RG, '''    d0 = d1 = -40 * np.log10(np.e) / model.k_
''', '''    d0 = d1 = -(40 / model.k_) * np.log10(np.e)
'''))
rw("c36-predict", "C36 C21", (RG, '''    if len(args) == 0:
      args = ("x",)
    return self.beat_.compute(np.squeeze(t), output=args)
''', '''    outputs = args or ("x",)
    return self.beat_.compute(np.squeeze(t), outputs)
'''))
rw("c36-start-names", "C36 C21", (RG, '''    a_dt = utils.dsp.db2a(utils.dsp.detrend(a, t, model=model.linear_regressor))
    corr = utils.dsp.lombscargle_autocorrelogram(t,
                                                 a_dt,
                                                 fs=model.fs,
                                                 lpf=model.lpf)
''', '''    lr = model.linear_regressor
    flat = utils.dsp.detrend(a, x=t, model=lr)
    corr = utils.dsp.lombscargle_autocorrelogram(t=t, x=utils.dsp.db2a(flat), lpf=model.lpf, fs=model.fs)
'''))

AN = "sample/widgets/analysis.py"
rw("c37-selection", "C37", (AN, '''        x = self.audio_x[self.audio_trim_start:self.audio_trim_stop]
        self.sample_object, fit_kwargs = sample.sample_factory(
            progressbar=self.progressbar,
            sinusoidal__tracker__fs=self.audio_sr,
            **self.sample_object_kwargs)
        self.sample_object.fit(x, **fit_kwargs)
''', '''        settings = dict(self.sample_object_kwargs,
                        progressbar=self.progressbar,
                        sinusoidal__tracker__fs=self.audio_sr)
        model, fit_kwargs = sample.sample_factory(**settings)
        self.sample_object = model
        model.fit(self._selection(), **fit_kwargs)
'''), (AN, '''  def _get_audio(self''', '''  def _selection(self):
    """The selected range"""
    start, stop = self.audio_trim_start, self.audio_trim_stop
    return self.audio_x[start:stop]

  def _get_audio(self'''), (AN, '''    x = self.audio_x[self.audio_trim_start:self.audio_trim_stop]
    if not resynth:
      return x
''', '''    x = self._selection()
    if not resynth:
      return x
'''))
rw("c37-lock", "C37", (AN, '''  owned = False
  try:
    owned = lock.acquire(blocking=False)
    yield owned
  finally:
    if owned:
      lock.release()
''', '''  if not lock.acquire(False):
    yield False
    return
  try:
    yield True
  finally:
    lock.release()
'''))
rw("c37-lock-inline", "C37", (AN, '''    with _non_block_lock(self._analisis_lock) as proceed:
      if not proceed:
        logging.warning("Analysis in progress, ignoring user input")
        return
      try:
''', '''    if not self._analisis_lock.acquire(blocking=False):
      logging.warning("Analysis in progress, ignoring user input")
      return
    try:
      try:
'''), (AN, '''        self.audio_resynth_x = None
        self.update_plot()
''', '''        self.audio_resynth_x = None
        self.update_plot()
    finally:
      self._analisis_lock.release()
'''))
rw("c37-json", "C37", (AN, '''          json.dump(j, f, indent=2)
''', '''          f.write(json.dumps(j, indent=2))
'''), (AN, '''        self.audio_resynth_x = np.clip(
            self.sample_object.predict(np.arange(x.size) / self.audio_sr,), -1,
            +1)
''', '''        t = np.arange(len(x)) / self.audio_sr
        y = self.sample_object.predict(t)
        self.audio_resynth_x = np.minimum(np.maximum(y, -1.0), 1.0)
'''))
rw("c37-factory", "C37", ("sample/widgets/sample.py", '''  kwargs.update((k, v) for k, v in _default_kwargs.items() if k not in kwargs)
''', '''  kwargs = {**_default_kwargs, **kwargs}
'''), ("sample/widgets/sample.py", '''  ok_kwargs = dict(filter(lambda t: t[0] in self.get_params(), kwargs.items()))
''', '''  names = self.get_params()
  ok_kwargs = {k: v for k, v in kwargs.items() if k in names}
'''))
