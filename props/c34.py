"""C34: vectorized environments and tensor wrappers around environments."""

import gymnasium as gym
import numpy as np
import torch
from gymnasium.spaces import Box, Discrete
from hypothesis import strategies as st

from evotorch.neuroevolution.net.vecrl import SyncVectorEnv, TorchWrapper, make_gym_env, make_vector_env

from .common import must_raise, often, require, seeds
from harness.core import Facet

QUICK_FACTOR = 3
TECHNIQUE = "property-based testing: generated sets of deterministic environments, seeds, actions, resets and wrapper settings; everything a vectorized or wrapped environment returns is compared with what the same environments return when they are stepped one by one by hand"
ASSUMPTIONS = ["environments are deterministic given their seeds and actions", "which seeds the parts receive is not prescribed; they must be reproducible and different"]

RNG = np.random.RandomState


class Toy(gym.Env):
    """Observations and rewards are fixed functions of the number of the environment, its seed, the episode, the time and the action"""

    def __init__(self, me=0, acts=None, obs_shape=(2,), obs_dtype="float32", lengths=(3,), ends=("terminated",), infos="same", log=None, old=False, render_mode=None):
        acts = acts or {"kind": "discrete", "n": 3}
        self.me, self.lengths, self.ends, self.infos, self.log, self.old = me, lengths, ends, infos, log, old
        if acts["kind"] == "discrete":
            self.action_space = Discrete(acts["n"])
        else:
            lo, hi = np.array(acts["lo"], dtype="float32"), np.array(acts["hi"], dtype="float32")
            self.action_space = Box(lo, hi, dtype=np.float32)
        self.obs_shape, self.obs_dtype = tuple(obs_shape), obs_dtype
        big = 10**6
        self.observation_space = Box(-big, big, shape=self.obs_shape, dtype=np.dtype(obs_dtype))
        self.key, self.episode, self.t = 0, -1, 0
        self.closed = 0

    def observe(self):
        n = int(np.prod(self.obs_shape)) if self.obs_shape else 1
        base = self.me * 1000 + self.key % 97 * 10 + self.episode * 5 + self.t
        return (np.arange(n) + base).reshape(self.obs_shape).astype(self.obs_dtype)

    def info(self):
        if self.infos == "none":
            return {}
        out = {"t": self.t, "pair": np.array([self.t, self.me], dtype="float32")}
        if self.infos == "mixed":
            out["text"] = f"{self.me}-{self.t}"
            if self.me % 2 == 0:
                out["even"] = self.t
            out["shape"] = np.zeros(self.me + 1)
        return out

    def reset(self, *, seed=None, options=None):
        if self.log is not None:
            self.log.append(["reset", self.me, seed, options])
        if seed is not None:
            self.key = seed
        self.episode += 1
        self.t = 0
        return self.observe() if self.old else (self.observe(), self.info())

    def step(self, action):
        a = np.asarray(action, dtype="float64").reshape(-1)
        if self.log is not None:
            self.log.append(["step", self.me, a.tolist()])
        self.t += 1
        reward = float(self.me + self.t * 0.5 + (a * np.arange(1, len(a) + 1)).sum())
        over = self.t >= self.lengths[self.episode % len(self.lengths)]
        how = self.ends[self.episode % len(self.ends)]
        terminated, truncated = over and how in ("terminated", "both"), over and how in ("truncated", "both")
        if self.old == "floats":
            return self.observe(), reward, np.float32(-1.0 if terminated else 1.0 if truncated else 0.0), self.info()
        if self.old:
            return self.observe(), reward, terminated or truncated, self.info()
        return self.observe(), reward, terminated, truncated, self.info()

    def close(self):
        self.closed += 1
        if self.log is not None:
            self.log.append(["close", self.me])


if "VpToy-v0" not in gym.registry:
    gym.register(id="VpToy-v0", entry_point=Toy, disable_env_checker=True, order_enforce=False)


def batched(infos):
    """How the dictionaries of several environments are put together"""
    out = {}
    for k in {k for d in infos for k in d}:
        vs = [d.get(k) for d in infos]
        numeric = all(k in d and isinstance(d[k], (int, float, np.ndarray, np.generic)) for d in infos)
        if numeric and len({np.shape(v) for v in vs}) == 1:
            out[k] = np.stack([np.asarray(v) for v in vs])
        else:
            out[k] = vs
    return out


def same_array(got, want, what):
    want = np.asarray(want)
    if isinstance(got, torch.Tensor):
        got = got.numpy()
    require(isinstance(got, np.ndarray), f"{what}: {type(got)}")
    require(got.shape == want.shape, f"{what}: shape {got.shape} instead of {want.shape}")
    require(np.array_equal(got.astype("float64"), want.astype("float64"), equal_nan=True), f"{what}: {got.tolist()} instead of {want.tolist()}")


def same_info(got, want, what, tensors):
    require(isinstance(got, dict) and set(got) == set(want), f"{what}: information {set(got)} instead of {set(want)}")
    for k, w in want.items():
        g = got[k]
        if isinstance(w, np.ndarray):
            require(not tensors or isinstance(g, torch.Tensor), f"{what}: information {k} was not made a tensor")
            same_array(g, w, f"{what}: information {k}")
        elif isinstance(w, list):
            require(isinstance(g, list) and len(g) == len(w), f"{what}: information {k}")
            for p, q in zip(g, w):
                if isinstance(q, np.ndarray):
                    same_array(p, q, f"{what}: information {k}")
                else:
                    require(p == q and type(p) is type(q), f"{what}: information {k}: {p!r} instead of {q!r}")
        else:
            require(g == w, f"{what}: information {k}: {g!r} instead of {w!r}")


@st.composite
def env_case(draw):
    n = draw(often(1, 4, 9))
    kind = draw(st.sampled_from(["discrete", "box"]))
    if kind == "discrete":
        acts = {"kind": kind, "n": draw(st.integers(2, 4))}
    else:
        m = draw(st.integers(1, 3))
        acts = {"kind": kind, "lo": [-draw(st.integers(1, 4)) / 2 for _ in range(m)], "hi": [draw(st.integers(1, 4)) / 2 for _ in range(m)]}
    return {
        "how": draw(st.sampled_from(["sync", "sync", "wrapped", "wrapped", "made", "single", "old"])),
        "n": n,
        "acts": acts,
        "obs_shape": draw(st.sampled_from([[2], [1], [3], [2, 2]])),
        "obs_dtype": draw(st.sampled_from(["float32", "float32", "float64", "int64"])),
        "lengths": [draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)) for _ in range(n)],
        "ends": [draw(st.lists(st.sampled_from(["terminated", "truncated", "both"]), min_size=1, max_size=2)) for _ in range(n)],
        "infos": draw(st.sampled_from(["same", "mixed", "none"])),
        "empty_info": draw(st.sampled_from([False, False, True])),
        "episodes": draw(st.sampled_from([None, None, 1, 2, 3])),
        "device": draw(st.sampled_from([None, None, "cpu"])),
        "actions as": draw(st.sampled_from(["array", "tensor"])),
        "classic": draw(st.booleans()),
        "continuous": draw(st.booleans()),
        "clip": draw(st.booleans()),
        "prefix": draw(st.sampled_from(["", "gym::"])),
        "maker": draw(st.sampled_from(["make_gym_env", "make_vector_env", "make_vector_env"])),
        "moves": draw(st.lists(st.sampled_from(["step"] * 12 + ["reset", "reset seed", "seed", "options"]), min_size=2, max_size=12) | st.lists(st.sampled_from(["step"] * 12 + ["reset", "reset seed", "seed", "options"]), min_size=12, max_size=30)),
        "first": draw(st.sampled_from(["reset", "reset", "reset seed", "seed", "options"])),
        "seed": draw(seeds),
    }


class ByHand:
    """The environments, stepped one by one"""

    def __init__(self, envs, episodes, nan_ok):
        self.envs, self.episodes, self.nan_ok = envs, episodes, nan_ok
        self.left = None

    def reset(self, kws):
        self.left = [self.episodes] * len(self.envs)
        out = [e.reset(**kw) for e, kw in zip(self.envs, kws)]
        return [o for o, _ in out], [i for _, i in out]

    def step(self, actions):
        rows = []
        for k, (e, a) in enumerate(zip(self.envs, actions)):
            if self.left[k] == 0:
                blank = np.full(e.obs_shape, np.nan if self.nan_ok else 0.0)
                rows.append((blank, np.nan, True, True, {}))
                continue
            o, r, te, tr, info = e.step(a)
            if te or tr:
                o2, i2 = e.reset()
                if self.left[k] is not None:
                    self.left[k] -= 1
                if self.left[k] != 0:
                    o, info = o2, i2
            rows.append((o, r, te, tr, info))
        return rows


def check_env(c, ctx):
    how, n = c["how"], c["n"]
    single = how in ("single", "old")
    if single:
        n = 1
    rng = RNG(c["seed"] % 2**31)
    log, ref_log = [], []

    def toys(lg):
        return [Toy(i, c["acts"], c["obs_shape"], c["obs_dtype"], c["lengths"][i], c["ends"][i], c["infos"], lg, old=(how == "old" and ("floats" if c["seed"] % 2 and lg is log else True))) for i in range(n)]

    made = toys(log)
    hand = toys(ref_log)
    wrapped = how != "sync"
    kw = dict(force_classic_api=c["classic"], discrete_to_continuous_act=c["continuous"], clip_actions=c["clip"])
    if c["seed"] % 2:
        kw = {k: v for k, v in kw.items() if v}  # the others have these values if not given
    sync_kw = {}
    if c["empty_info"]:
        sync_kw["empty_info"] = True
    if c["episodes"] is not None:
        sync_kw["num_episodes"] = c["episodes"]
    if c["device"] is not None:
        sync_kw["device"] = c["device"]
    discrete = c["acts"]["kind"] == "discrete"
    if how == "made":
        # all environments are made from the same arguments
        args = dict(me=1, acts=c["acts"], obs_shape=c["obs_shape"], obs_dtype=c["obs_dtype"], lengths=c["lengths"][0], ends=c["ends"][0], infos=c["infos"], log=log)
        hand = [Toy(**dict(args, log=ref_log)) for _ in range(n)]
        if c["maker"] == "make_gym_env":
            env = make_gym_env("VpToy-v0", num_envs=n, **kw, **sync_kw, **args)
        else:
            half = {"lengths": args.pop("lengths"), "me": args.pop("me")}
            env = make_vector_env(c["prefix"] + "VpToy-v0", num_envs=n, gym_kwargs=half, **kw, **sync_kw, **args)
            must_raise(lambda: make_vector_env("nowhere::VpToy-v0", num_envs=n), "an unknown registry of environments", ValueError)
    elif single:
        env = TorchWrapper(made[0], **kw)
    else:
        env = SyncVectorEnv([(lambda e=e: e) for e in made], **sync_kw)
        inner = env
        if wrapped:
            env = TorchWrapper(env, **kw)
    ctx.label(how)

    m = c["acts"]["n"] if discrete else len(c["acts"]["lo"])
    vector = not single
    # spaces
    to_cont = wrapped and discrete and c["continuous"]
    if vector:
        require(env.num_envs == n, f"{env.num_envs} environments instead of {n}")
        space = env.single_action_space
        require(tuple(env.single_observation_space.shape) == tuple(c["obs_shape"]), "shape of the observation of one environment")
        require(tuple(env.observation_space.shape) == (n,) + tuple(c["obs_shape"]), "shape of all observations")
        require(env.action_space.shape == ((n, m) if to_cont or not discrete else (n,)), f"shape of all actions: {env.action_space.shape}")
    else:
        space = env.action_space
    if discrete and not to_cont:
        require(isinstance(space, Discrete) and space.n == m, f"action space {space}")
    else:
        require(isinstance(space, Box) and space.shape == (m,), f"action space {space}")
        if not discrete:
            same_array(space.low, np.array(c["acts"]["lo"]), "lower bounds of the actions")
            same_array(space.high, np.array(c["acts"]["hi"]), "upper bounds of the actions")

    nan_ok = c["obs_dtype"].startswith("float")
    by_hand = ByHand(hand, None if single else c["episodes"], nan_ok)
    tensors = wrapped or c["device"] is not None
    seed_next = None
    given_seeds = {}

    def compare_logs(what):
        a, b = [list(x) for x in log], [list(x) for x in ref_log]
        # seeds are whatever the library decided
        for x in a + b:
            if x[0] == "reset":
                x[2] = x[2] is not None
        require(a == b, f"{what}: the environments were called as {log} instead of {ref_log}")
        log.clear()
        ref_log.clear()

    def do_reset(move, what):
        nonlocal seed_next
        kws = {}
        if move == "reset seed":
            seed_next = 1 + c["seed"] % 1000
            kws["seed"] = seed_next
        elif move == "seed" and vector and not wrapped:
            seed_next = 3 + c["seed"] % 1000
            env.seed(seed_next)
        elif move == "options":
            kws["options"] = {"a": 5}
        log.clear()
        got = env.reset(**kws)
        part = dict(kws)
        part.pop("seed", None)
        parts = [dict(part) for _ in range(n)]
        received = [x[2] for x in log if x[0] == "reset"]
        if single:
            require(len(received) == 1 and received[0] == kws.get("seed"), f"{what}: the environment received the seed {received}")
            received = [kws.get("seed")]
        require(len(received) == n, f"{what}: {len(received)} environments were reset instead of {n}")
        if seed_next is not None:
            require(all(isinstance(s, int) for s in received), f"{what}: seeds {received}")
            if not single:
                require(given_seeds.setdefault(seed_next, received) == received, f"{what}: the same seed led to {received} and {given_seeds[seed_next]}")
                require(len(set(received)) == n, f"{what}: environments share their seeds {received}")
            for p, s in zip(parts, received):
                p["seed"] = s
            ctx.label("seeded")
        else:
            require(all(s is None for s in received), f"{what}: seeds {received} were given to the environments although none was requested")
        seed_next = None
        if how == "old":
            obs, infos = [hand[0].reset(**parts[0])], None
        else:
            obs, infos = by_hand.reset(parts)
        compare_logs(what)
        if how == "old":
            o = got
        elif wrapped and c["classic"]:
            require(not isinstance(got, tuple), f"{what}: the classic reset returns {type(got)}")
            o = got
        else:
            require(isinstance(got, tuple) and len(got) == 2, f"{what}: reset returned {type(got)}")
            o, info = got
            if single:
                same_info(info, infos[0], what, False)
            else:
                same_info(info, {} if c["empty_info"] else batched(infos), what, c["device"] is not None)
        check_obs(o, obs, what)

    def check_obs(o, obs, what):
        require(isinstance(o, torch.Tensor) == tensors, f"{what}: observations as {type(o)}")
        require(str(o.dtype).endswith(c["obs_dtype"]), f"{what}: observations of dtype {o.dtype}")
        same_array(o, obs[0] if single else np.stack(obs), f"{what}: observations")

    if wrapped:
        must_raise(lambda: env.step(torch.zeros((n, m))), "a step before the first reset", ValueError)
    do_reset(c["first"], "first reset")
    steps = ended = blank = 0
    kept = []
    for t, move in enumerate(c["moves"]):
        what = f"move {t + 1} ({move})"
        if move != "step":
            do_reset(move, what)
            continue
        # the actions: what is given, and what the environments are to receive
        if discrete:
            if to_cont:
                scores = np.stack([rng.permutation(m) for _ in range(n)]).astype("float32") / 2 - 0.5
                given, wanted = scores, scores.argmax(-1)
            else:
                given = rng.randint(0, m, size=n)
                wanted = given
        else:
            given = (rng.randint(-16, 17, size=(n, m)) / 4).astype("float32")
            wanted = np.clip(given, c["acts"]["lo"], c["acts"]["hi"]) if wrapped and c["clip"] else given
        if single:
            given = given[0]
        if wrapped or c["actions as"] == "tensor":
            given = torch.as_tensor(given)
        keep = given.clone() if isinstance(given, torch.Tensor) else given.copy()
        got = env.step(given)
        require(bool((keep == given).all()), f"{what}: the given actions were modified")
        require(isinstance(got, tuple), f"{what}: step returned {type(got)}")
        if how == "old":
            o, r, d, info = hand[0].step(wanted[0])
            rows = [(o, r, d, False, info)]
        elif single:
            rows = [hand[0].step(wanted[0])]
        else:
            rows = by_hand.step(wanted)
        compare_logs(what)
        obs, rew, te, tr, infos = ([x[k] for x in rows] for k in range(5))
        done = [p or q for p, q in zip(te, tr)]
        merged = how == "old" or (wrapped and c["classic"])
        require(len(got) == (4 if merged else 5), f"{what}: step returned {len(got)} items")
        check_obs(got[0], obs, what)
        signals = [done] if merged else [te, tr]
        one = (lambda x: x[0]) if single else (lambda x: x)
        same_array(got[1], one(rew), f"{what}: rewards")
        require(isinstance(got[1], torch.Tensor) == tensors, f"{what}: rewards as {type(got[1])}")
        for s, w in zip(got[2:-1], signals):
            require(str(s.dtype).endswith("bool"), f"{what}: end signals of dtype {s.dtype}")
            same_array(s, one(w), f"{what}: end signals")
        if single:
            same_info(got[-1], infos[0], what, False)
        else:
            same_info(got[-1], {} if c["empty_info"] else batched(infos), what, c["device"] is not None)
        if vector:
            kept.append((got[0], np.stack(obs)))
        steps += 1
        ended += any(done)
        blank += any(np.isnan(x) for x in rew)
        if single and done[0]:
            do_reset("reset", what)
    for k, (o, w) in enumerate(kept):
        same_array(o, w, f"observations of step {k + 1}, looked at again later")
    if not single:
        must_raise(lambda: env.step(torch.zeros((n + 1, m)) if wrapped else np.zeros((n + 1, m))), "actions for another number of environments", ValueError)
    log.clear()
    if how != "made":
        env.close()
        require(all(e.closed == 1 for e in made), "not every environment was closed")
    if steps and ended:
        ctx.hit("an episode ended", "finished environments" if blank else None, "continuous" if to_cont else None, "clipped" if wrapped and c["clip"] and not discrete else None)


@st.composite
def mismatch_case(draw):
    def acts():
        if draw(st.booleans()):
            return {"kind": "discrete", "n": draw(st.integers(2, 3))}
        m = draw(st.integers(1, 2))
        return {"kind": "box", "lo": [-1.0] * m, "hi": [1.0] * m}

    return {"acts": [acts(), acts()], "obs": draw(st.lists(st.sampled_from([[2], [2], [3], [2, 1]]), min_size=2, max_size=2)), "episodes": draw(st.sampled_from([None, 0, -1, 1]))}


def check_mismatch(c, ctx):
    envs = [Toy(i, c["acts"][i], c["obs"][i]) for i in range(2)]
    a, b = c["acts"]
    make = lambda es, **kw: SyncVectorEnv([(lambda e=e: e) for e in es], **kw)
    if c["obs"][0] != c["obs"][1]:
        must_raise(lambda: make(envs), "environments with different observations", ValueError)
    elif a["kind"] != b["kind"]:
        must_raise(lambda: make(envs), "environments with different kinds of actions", TypeError)
    elif a.get("n") != b.get("n") or len(a.get("lo", [])) != len(b.get("lo", [])):
        must_raise(lambda: make(envs), "environments with different actions", ValueError)
    else:
        require(make(envs).num_envs == 2, "number of environments")
        ctx.label("equal")
    if c["episodes"] is not None and c["episodes"] <= 0:
        must_raise(lambda: make(envs[:1], num_episodes=c["episodes"]), "a number of episodes which is not positive", ValueError)
    must_raise(lambda: make([]), "no environment", ValueError)
    must_raise(lambda: make_gym_env("VpToy-v0", num_episodes=2), "a number of episodes without vectorization", ValueError)
    must_raise(lambda: make_gym_env("VpToy-v0", empty_info=True), "empty information without vectorization", ValueError)
    must_raise(lambda: make_gym_env("VpToy-v0", device="cpu"), "a device without vectorization", ValueError)
    ctx.hit("checked")


FACETS = [
    Facet("steps", env_case(), check_env, rule="non-trivial: at least one step was made and at least one episode ended", quick=700, thorough=12000),
    Facet("refusals", mismatch_case(), check_mismatch, rule="non-trivial: every case", quick=60, thorough=400),
]
