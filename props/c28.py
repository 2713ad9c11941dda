"""C28: fitness of policies in environments."""

import copy
import math
import os
import pickle
import shutil
import tempfile

import gymnasium as gym
import numpy as np
import torch
from hypothesis import strategies as st

from evotorch import SolutionBatch
from evotorch.neuroevolution import GymNE, VecGymNE
from evotorch.neuroevolution.net.runningnorm import RunningNorm
from evotorch.neuroevolution.net.vecrl import SyncVectorEnv, TorchWrapper, make_vector_env

from . import envs
from .common import Violation, eq, must_raise, often, plain, rand_grid, require, same, seeds, show, unpickled
from .envs import NAME, Recorder, TorchRecorder, bonus, bounds_of, episodes
from .nets import F64, Ref, count, is_recurrent, layer_list, text
from harness.core import Facet

TECHNIQUE = "property-based testing: policies generated as layer lists, environments which draw observations, rewards and episode lengths at random and record every action; actions, fitnesses, counters and observation statistics recomputed from the record in float64"
ASSUMPTIONS = ["row i of a batch is evaluated in sub-environment i of a vectorized environment", "a vectorized environment returns the first observation of the next episode when an episode ends"]


@st.composite
def env_part(draw, vectorized):
    c = {
        "obs": draw(st.integers(1, 3)),
        "act": draw(st.integers(1, 3)),
        "discrete": draw(st.integers(0, 3)) == 0,
        "bounds": draw(st.sampled_from(["both", "both", "none", "low", "mixed", "different"])),
        "longest": draw(often(1, 6, 20)),
        "truncates": draw(st.booleans()),
        "seed": draw(seeds),
        "episodes": draw(st.sampled_from([1, 1, 2, 3])),
        "normalize": draw(st.booleans()),
        "decrease": draw(st.sampled_from([None, None, 0.5, -1.0])),
        "bonus": draw(st.sampled_from([None, None, None, [2, 1.5], [1, 4, 3.0], [2, 5, -1.0], [0, 3, 2.0], [3, 3, 1.0], [1, 0.5]])),
        "by": draw(st.sampled_from(["name", "maker"])),
        "net": draw(st.sampled_from(["text", "text", "module", "factory"])),
    }
    c["layers"] = draw(layer_list(c["obs"], c["act"], max_layers=3, steps=False, slices=vectorized or True, locomotor=not vectorized))
    if c["discrete"]:
        c["act"] = max(2, c["act"])
        c["layers"] = draw(layer_list(c["obs"], c["act"], max_layers=2, steps=False))
    return c


def env_config(c):
    return {k: c[k] for k in ("seed", "obs", "act", "discrete", "bounds", "longest", "truncates")}


def network(c, kw):
    t = " >> ".join(text(l, [("obs_length", c["obs"])] if c["net"] == "text" else []) for l in c["layers"])
    if c["net"] == "text":
        return t
    from evotorch.neuroevolution.net import str_to_net

    if c["net"] == "module":
        return str_to_net(t)
    return Factory(t)


class Factory:
    def __init__(self, text):
        self.text = text

    def __call__(self):
        from evotorch.neuroevolution.net import str_to_net

        return str_to_net(self.text)


class Stats:
    def __init__(self):
        self.rows = []

    def normalize(self, x):
        t = torch.stack(self.rows).to(F64)
        return (x.to(F64) - t.mean(0)) / torch.sqrt(torch.clamp(((t - t.mean(0)) ** 2).mean(0), min=0.01))

    def check(self, got, what):
        eq(0 if got is None else got.count, len(self.rows), f"{what}: number of observations")
        if self.rows:
            t = torch.stack(self.rows).to(F64)
            same(torch.as_tensor(got.mean).to(F64), t.mean(0), f"{what}: mean of the observations", rtol=1e-3, atol=1e-3)
            same(torch.as_tensor(got.sum_of_squares).to(F64), (t**2).sum(0), f"{what}: sum of squares", rtol=1e-3, atol=1e-3)


class Risky(Exception):
    pass


def expected_action(c, ref, x, state):
    y, state = ref.step(x, state)
    if ref.risky:
        raise Risky
    return y, state


def check_action(c, got, y, what):
    """`got` is what the environment received, `y` the output of the policy"""
    if c["discrete"]:
        require(np.ndim(got) == 0 and 0 <= int(got) < c["act"] and int(got) == got, f"{what}: not an action: {got!r}")
        require(float(y[int(got)]) >= float(y.max()) - 1e-3, f"{what}: action {int(got)}, policy output {show(y)}")
    else:
        low, high = (torch.from_numpy(b).to(F64) for b in bounds_of(c["bounds"], c["act"]))
        want = torch.minimum(torch.maximum(y, low), high)
        got = torch.from_numpy(np.asarray(got)).to(F64)
        require(got.shape == want.shape and bool(((got - want).abs() <= 2e-3 + 2e-3 * want.abs()).all()), lambda: f"{what}: action {show(got)}, expected {show(want)}")


def score(c, steps):
    total = 0.0
    for t, e in enumerate(steps, start=1):
        total += float(e[2]) - (c["decrease"] or 0.0) + bonus(c["bonus"], t)
    return total


def near(got, want, what):
    require(abs(float(got) - want) <= 1e-3 + 1e-4 * abs(want), lambda: f"{what}: got {float(got)}, expected {want}")


def vectors(c, n, k=0):
    return rand_grid(c["seed"] + 17 * k + 5, (n, count(c["layers"])), -12, 12, 8.0)


def make_batch(problem, values):
    b = problem.generate_batch(len(values))
    b.set_values(values)
    return b


def parts(c, **kw):
    res = dict(env_config=env_config(c), num_episodes=c["episodes"], observation_normalization=c["normalize"], decrease_rewards_by=c["decrease"], alive_bonus_schedule=None if c["bonus"] is None else tuple(c["bonus"]), **kw)
    defaults = dict(num_episodes=1, observation_normalization=False, decrease_rewards_by=None, alive_bonus_schedule=None)
    if c["seed"] % 2:
        # what has its default value is left out
        res = {k: v for k, v in res.items() if k not in defaults or v != defaults[k]}
    return res


# ---------------------------------------------------------------- one environment


@st.composite
def gym_case(draw):
    c = draw(env_part(False))
    c["limit"] = draw(st.sampled_from([None, None, 1, 2, 3]))
    c["sizes"] = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    c["extra"] = draw(st.sampled_from([[], ["run"], ["policy"], ["save"], ["clone"], ["run", "policy"], ["run", "run"], ["run", "clone"]]))
    return c


def expected_episode(c, ref, start, steps, stats, update, what):
    """Follows one episode of the record"""
    state = ref.fresh()
    x = torch.from_numpy(start)
    for t, e in enumerate(steps):
        if c["normalize"]:
            if update:
                stats.rows.append(x)
            x = stats.normalize(x) if stats.rows else x
        y, state = expected_action(c, ref, x, state)
        check_action(c, e[1], y, f"{what}, step {t}")
        x = torch.from_numpy(e[3])
    if c["normalize"] and update:
        stats.rows.append(x)
    last = steps[-1]
    require(last[4] or (c["limit"] is not None and len(steps) == c["limit"]), f"{what}: stopped after {len(steps)} steps")
    require(not any(e[4] for e in steps[:-1]) and (c["limit"] is None or len(steps) <= c["limit"]), f"{what}: continued after its end")


def check_gym(case, ctx):
    c = case
    del envs.RECORD[:]
    p = GymNE(NAME if c["by"] == "name" else Recorder, network(c, None), episode_length=c["limit"], **parts(c))
    eq(p.solution_length, count(c["layers"]), "solution length")
    stats = Stats()
    interactions = n_episodes = 0
    try:
        for k, n in enumerate(c["sizes"]):
            values = vectors(c, n, k)
            batch = make_batch(p, values)
            before = {id(e): len(e.log) for e in envs.RECORD}
            p.evaluate(batch)
            used = [e for e in envs.RECORD if len(e.log) > before.get(id(e), 0)]
            eq(len(used), 1, "number of environments used")
            eps = episodes(used[0].log[before.get(id(used[0]), 0) :])
            eq(len(eps), n * c["episodes"], f"number of episodes of evaluation {k}")
            for i in range(n):
                ref = Ref(c["layers"], values[i])
                mine = eps[i * c["episodes"] : (i + 1) * c["episodes"]]
                for j, (start, steps) in enumerate(mine):
                    expected_episode(c, ref, start, steps, stats, True, f"evaluation {k}, solution {i}, episode {j}")
                    interactions += len(steps)
                    n_episodes += 1
                near(batch.evals[i, 0], sum(score(c, s) for _, s in mine) / c["episodes"], f"fitness of solution {i} in evaluation {k}")
            eq((p.interaction_count, p.episode_count), (interactions, n_episodes), "counters")
            eq((p.status["total_interaction_count"], p.status["total_episode_count"]), (interactions, n_episodes), "counters in the status")
            if c["normalize"]:
                stats.check(p.get_observation_stats(), f"after evaluation {k}")
                stats_collected = p.pop_observation_stats()
                eq(p.pop_observation_stats().count, 0, "collected statistics after taking them")
                del stats_collected
        for what in c["extra"]:
            gym_extra(c, p, stats, what)
    except Risky:
        ctx.label("broken off")
        return
    if not c["normalize"]:
        must_raise(lambda: p.get_observation_stats(), "statistics without normalization", ValueError)
    ctx.hit("normalized" if c["normalize"] else "plain", "recurrent" if is_recurrent(c["layers"]) else None, "discrete" if c["discrete"] else c["bounds"])


def gym_extra(c, p, stats, what):
    v = vectors(c, 1, 77)[0]
    ref = Ref(c["layers"], v)
    counters = (p.interaction_count, p.episode_count)
    if what == "run":
        before = {id(e): len(e.log) for e in envs.RECORD}
        z = c["seed"]
        kw, n, cc = {}, c["episodes"], c
        show_it = z % 3 == 0
        if show_it:
            n = 1
        if z % 4 < 3:
            n = 1 + (z // 2) % 3
            kw["num_episodes"] = n
        elif z % 8 > 3:
            n = c["episodes"]
            kw["num_episodes"] = None
        if z % 5 < 3:
            cc = dict(c, decrease=[0.75, -2.0, 0.0][z % 5])
            kw["decrease_rewards_by"] = cc["decrease"]
        counting = z % 7 < 3
        if counting:
            kw["update_stats"] = True
        if show_it:
            res = p.visualize(v, **kw)
        else:
            res = p.run(p.make_net(v) if z % 2 else v, **kw)
        used = [e for e in envs.RECORD if len(e.log) > before.get(id(e), 0)]
        eps = [x for e in used for x in episodes(e.log[before.get(id(e), 0) :])]
        eq(len(eps), n, "number of episodes run")
        for start, steps in eps:
            expected_episode(cc, ref, start, steps, stats, counting, "run")
        near(res["cumulative_reward"], sum(score(cc, s) for _, s in eps) / n, "cumulative reward of a run")
        total = sum(len(s) for _, s in eps)
        eq(res["interaction_count"], total, "interactions of a run")
        eq(sum(e.renders for e in used), total + n if show_it else 0, "number of frames shown")
        if counting:
            counters = (counters[0] + total, counters[1] + n)
        eq((p.interaction_count, p.episode_count), counters, "counters after a run")
        stats.check(p.get_observation_stats(), "after a run") if c["normalize"] else None
    elif what == "policy":
        for clip in (True, False):
            policy_module(c, p.to_policy(v, clip_actions=clip), ref, stats, clip)
    elif what == "clone":
        q = pickle.loads(pickle.dumps(p)) if c["seed"] % 2 else p.clone()
        eq((q.interaction_count, q.episode_count), counters, "counters of the copy")
        stats.check(q.get_observation_stats(), "statistics of the copy") if c["normalize"] else None
        batch = make_batch(q, v[None])
        before = {id(e): len(e.log) for e in envs.RECORD}
        q.evaluate(batch)
        used = [e for e in envs.RECORD if len(e.log) > before.get(id(e), 0)]
        eq(len(used), 1, "number of environments used")
        require(id(used[0]) not in before, "the copy uses the environment of the original")
        eps = episodes(used[0].log)
        eq(len(eps), c["episodes"], "episodes of the copy")
        mine = copy.deepcopy(stats)
        for start, steps in eps:
            expected_episode(c, ref, start, steps, mine, True, "copy")
        near(batch.evals[0, 0], sum(score(c, s) for _, s in eps) / c["episodes"], "fitness in the copy")
        eq((p.interaction_count, p.episode_count), counters, "counters of the original")
        stats.check(p.get_observation_stats(), "statistics of the original") if c["normalize"] else None
    else:
        d = tempfile.mkdtemp(prefix="vpc28")
        try:
            f = os.path.join(d, "s.pickle")
            p.save_solution(v, f)
            data = unpickled(f, "saved solution")
        finally:
            shutil.rmtree(d)
        same(data["solution"], v, "saved solution")
        eq((data["interaction_count"], data["episode_count"]), counters, "saved counters")
        policy_module(c, data["policy"], ref, stats, True)
        if c["by"] == "name":
            eq(data["env"], NAME, "saved environment")
        if c["normalize"] and stats.rows:
            same(torch.as_tensor(data["obs_mean"]).to(F64), torch.stack(stats.rows).to(F64).mean(0), "saved mean", rtol=1e-3, atol=1e-3)
            t = torch.stack(stats.rows).to(F64)
            same(torch.as_tensor(data["obs_sum"]).to(F64), t.sum(0), "saved sum", rtol=1e-3, atol=1e-3)
            same(torch.as_tensor(data["obs_sum_of_squares"]).to(F64), (t**2).sum(0), "saved sum of squares", rtol=1e-3, atol=1e-3)
            if len(t) >= 2:
                got = p.get_observation_stats()
                same(torch.as_tensor(data["obs_stdev"]).to(F64), torch.as_tensor(got.stdev).to(F64), "saved standard deviation", rtol=1e-5, atol=1e-5)


def policy_module(c, m, ref, stats, clip):
    x = rand_grid(c["seed"] + 3, (c["obs"],), -8, 8, 8.0)
    if any(l[0] == "LocomotorNet" for l in c["layers"]):
        return  # (an exported network continues with the time of the network it was made from)
    state, h = ref.fresh(), None
    for t in range(3):
        with torch.no_grad():
            out = m(x) if h is None else m(x, h)
        eq(isinstance(out, tuple), is_recurrent(c["layers"]), "the exported policy returns a state")
        if isinstance(out, tuple):
            out, h = out
        y, state = expected_action(c, ref, stats.normalize(x) if c["normalize"] and stats.rows else x, state)
        if clip and not c["discrete"]:
            low, high = (torch.from_numpy(b).to(F64) for b in bounds_of(c["bounds"], c["act"]))
            y = torch.minimum(torch.maximum(y, low), high)
        same(plain(out).to(F64), y, f"output of the exported policy at step {t}", rtol=2e-3, atol=2e-3)
        x = rand_grid(c["seed"] + 4 + t, (c["obs"],), -8, 8, 8.0)


# ---------------------------------------------------------------- vectorized environments


@st.composite
def vec_case(draw):
    c = draw(env_part(True))
    c["by"] = draw(st.sampled_from(["name", "gym::", "tensors"]))
    c["sizes"] = draw(st.lists(often(1, 5, 12), min_size=1, max_size=3))
    c["max_envs"] = None if c["normalize"] or c["discrete"] else draw(st.sampled_from([None, None, 1, 2, 3]))
    if c["max_envs"] is not None:
        c["bounds"] = "none"
    c["extra"] = draw(st.sampled_from([[], ["policy"], ["save"], ["stats"]]))
    return c


def make_vec(c, **kw):
    env = {"name": NAME, "gym::": "gym::" + NAME, "tensors": TorchRecorder}[c["by"]]
    return VecGymNE(env, network(c, None), **parts(c, **kw))


def check_vec(case, ctx):
    c = case
    del envs.RECORD[:]
    p = make_vec(c, max_num_envs=c["max_envs"])
    eq(p.solution_length, count(c["layers"]), "solution length")
    stats = Stats()
    if not c["normalize"]:
        must_raise(lambda: p.get_observation_stats(), "statistics without normalization", ValueError)
        must_raise(lambda: p.pop_observation_stats(), "collected statistics without normalization", ValueError)
        must_raise(lambda: p.set_observation_stats(RunningNorm(shape=(2,), dtype="float32", device="cpu")), "setting statistics without normalization", ValueError)
    interactions = n_episodes = 0
    E = c["episodes"]
    try:
        for k, n in enumerate(c["sizes"]):
            values = vectors(c, n, k)
            batch = make_batch(p, values)
            before = {id(e): len(e.log) for e in envs.RECORD}
            p.evaluate(batch)
            used = [e for e in envs.RECORD if len(e.log) > before.get(id(e), 0)]
            logs = [episodes(e.log[before.get(id(e), 0) :]) for e in used]
            if c["max_envs"] is not None:
                require(len(used) <= c["max_envs"], f"{len(used)} environments are used, at most {c['max_envs']} are allowed")
                mine = assign(c, values, logs)
            else:
                require(len(used) >= n, f"{len(used)} environments are used for {n} solutions")
                mine = [l[:E] for l in logs[:n]]
                follow(c, values, mine, stats, k)
            for i in range(n):
                eq(len(mine[i]), E, f"number of episodes of solution {i} in evaluation {k}")
                require(all(s[-1][4] for _, s in mine[i]), f"solution {i} in evaluation {k}: stopped before the end of an episode")
                near(batch.evals[i, 0], sum(score(c, s) for _, s in mine[i]) / E, f"fitness of solution {i} in evaluation {k}")
                interactions += sum(len(s) for _, s in mine[i])
                n_episodes += E
            eq((p.interaction_count, p.episode_count), (interactions, n_episodes), "counters")
            eq((p.status["total_interaction_count"], p.status["total_episode_count"]), (interactions, n_episodes), "counters in the status")
            if c["normalize"]:
                stats.check(p.get_observation_stats(), f"after evaluation {k}")
        v = vectors(c, 1, 77)[0]
        ref = Ref(c["layers"], v)
        for what in c["extra"]:
            if what == "policy":
                policy_module(c, p.to_policy(v), ref, stats, True)
                policy_module(dict(c, normalize=False), p.make_net(v), ref, stats, False)
            elif what == "save":
                gym_extra(c, p, stats, "save")
            elif c["normalize"]:
                rn = copy.deepcopy(p.get_observation_stats())
                q = make_vec(c)
                q.set_observation_stats(rn)
                q.evaluate(make_batch(q, v[None]))
                stats.check(rn, "the statistics given to another problem")
                stats.check(p.get_observation_stats(), "the statistics of the first problem")
                require(q.get_observation_stats().count > len(stats.rows), "the statistics of the other problem")
    except Risky:
        ctx.label("broken off")
        return
    ctx.hit("normalized" if c["normalize"] else "plain", "recurrent" if is_recurrent(c["layers"]) else None, "discrete" if c["discrete"] else c["bounds"], c["by"], "idle environments" if c["max_envs"] is None and any(b < max(c["sizes"][:i]) for i, b in enumerate(c["sizes"]) if i) else None)


def assign(c, values, logs):
    """Which solution played which episodes: told by the actions (which are not clipped)"""
    mine = [[] for _ in values]
    for log in logs:
        for start, steps in log:
            x0 = torch.from_numpy(start)
            for i, v in enumerate(values):
                ref = Ref(c["layers"], v)
                y, _ = expected_action(c, ref, x0, {})
                got = torch.from_numpy(np.asarray(steps[0][1])).to(F64)
                if bool(((got - y).abs() <= 2e-3 + 2e-3 * y.abs()).all()):
                    mine[i].append((start, steps))
                    break
            else:
                require(False, f"an episode was played by none of the solutions: first action {show(got)}")
    for i, m in enumerate(mine):
        ref = Ref(c["layers"], values[i])
        # (sub-environments without a solution of their own may repeat the first solution of their turn)
        require(len(m) >= c["episodes"], f"solution {i} played {len(m)} episodes")
        if len(m) > c["episodes"]:
            raise Risky
        for start, steps in m:
            state, x = {}, torch.from_numpy(start)
            for t, e in enumerate(steps):
                y, state = expected_action(c, ref, x, state)
                check_action(c, e[1], y, f"solution {i}, step {t}")
                x = torch.from_numpy(e[3])
    return mine


def follow(c, values, mine, stats, k):
    """Follows all the sub-environments step by step"""
    n = len(values)
    refs = [Ref(c["layers"], v) for v in values]
    states = [{} for _ in range(n)]
    seqs = []
    for m in mine:
        seq = []
        for start, steps in m:
            x = torch.from_numpy(start)
            for t, e in enumerate(steps):
                seq.append((x, e, t == 0))
                x = torch.from_numpy(e[3])
        seqs.append(seq)
    for r in range(max(len(s) for s in seqs)):
        active = [i for i in range(n) if r < len(seqs[i])]
        if c["normalize"]:
            stats.rows += [seqs[i][r][0] for i in active]
        for i in active:
            x, e, first = seqs[i][r]
            if first:
                states[i] = {}
            y, states[i] = expected_action(c, refs[i], stats.normalize(x) if c["normalize"] else x, states[i])
            check_action(c, e[1], y, f"evaluation {k}, solution {i}, round {r}")


# ---------------------------------------------------------------- several actors


@st.composite
def actor_case(draw):
    c = draw(env_part(True))
    c["vec"] = draw(st.booleans())
    c["by"] = "name"
    c["limit"] = None
    c["net"] = draw(st.sampled_from(["text", "module"]))
    c["normalize"] = draw(st.booleans())
    c["discrete"], c["bounds"] = False, "none"
    c["layers"] = draw(layer_list(c["obs"], c["act"], max_layers=2, steps=False, recurrent=False))
    c["sizes"] = draw(st.lists(often(1, 6, 14), min_size=1, max_size=2))
    c["actors"] = draw(st.integers(2, 3))
    c["max_envs"] = draw(st.sampled_from([None, c["actors"], c["actors"] + 1])) if c["vec"] else None
    c["split"] = draw(st.sampled_from([None, None, ["num_subbatches", 2], ["num_subbatches", 4], ["subbatch_size", 1], ["subbatch_size", 2]]))
    return c


def seen_by(p):
    s = p.get_observation_stats()
    return 0 if s is None else s.count


def follow_actor(c, values, eps, known, left, batch, k):
    """One actor runs some of the solutions one after another, starting with the statistics known before. Which
    solutions these are is told by their actions."""
    E = c["episodes"]
    eq(len(eps) % E, 0, "episodes of an actor")
    mine = Stats()
    mine.rows = list(known)
    for a in range(0, len(eps), E):
        for i in list(left):
            trial = copy.deepcopy(mine)
            try:
                for start, steps in eps[a : a + E]:
                    expected_episode(c, Ref(c["layers"], values[i]), start, steps, trial, True, "")
            except Violation:
                continue
            fitness = sum(score(c, s) for _, s in eps[a : a + E]) / E
            if abs(float(batch.evals[i, 0]) - fitness) > 1e-3 + 1e-4 * abs(fitness):
                continue
            left.remove(i)
            mine = trial
            break
        else:
            raise Violation(f"evaluation {k}: the actions and the resulting fitness of one of the runs of an actor belong to none of the solutions")


def check_actors(case, ctx):
    c = case
    del envs.RECORD[:]
    kw = {"num_actors": c["actors"]}
    if c["split"]:
        kw[c["split"][0]] = c["split"][1]
        if c["split"][0] == "num_subbatches":
            c = dict(c, sizes=[max(n, c["split"][1]) for n in c["sizes"]])
        else:
            c = dict(c, sizes=[n * c["split"][1] for n in c["sizes"]])
    p = make_vec(c, max_num_envs=c["max_envs"], **kw) if c["vec"] else GymNE(NAME, network(c, None), **parts(c, **kw))
    stats = []
    interactions = n_episodes = 0
    E = c["episodes"]
    try:
        for k, n in enumerate(c["sizes"]):
            values = vectors(c, n, k)
            batch = make_batch(p, values)
            before = {id(e): len(e.log) for e in envs.RECORD}
            had = seen_by(p) if c["normalize"] else 0
            p.evaluate(batch)
            if c["normalize"]:
                # what the actors know: all that was known before, and what they saw themselves
                own = [0 if s is None else s.count for s in p.all_remote_problems().get_observation_stats()]
                require(min(own) >= had and sum(own) - len(own) * had == seen_by(p) - had, lambda: f"evaluation {k}: {had} observations were known before and {seen_by(p)} after it; the actors know {own}")
            logs = [episodes(e.log[before.get(id(e), 0) :]) for e in envs.RECORD if len(e.log) > before.get(id(e), 0)]
            require(c["max_envs"] is None or len(logs) <= c["max_envs"], f"{len(logs)} environments are used, at most {c['max_envs']} are allowed")
            total = sum(len(l) for l in logs)
            if not c["vec"]:
                eq(total, n * E, "number of episodes")
            if c["normalize"]:
                if not c["vec"]:
                    for l in logs:
                        for start, steps in l:
                            stats += [torch.from_numpy(start)] + [torch.from_numpy(e[3]) for e in steps]
                require(bool(torch.isfinite(batch.evals).all()), "fitness missing")
                if not c["vec"]:
                    known = stats[: len(stats) - sum(len(s) + 1 for l in logs for _, s in l)]
                    left = list(range(n))
                    for l in logs:
                        follow_actor(c, values, l, known, left, batch, k)
                    eq(left, [], f"solutions which were not run in evaluation {k}")
                    interactions += sum(len(s) for l in logs for _, s in l)
            else:
                mine = assign(c, values, logs)
                for i in range(n):
                    near(batch.evals[i, 0], sum(score(c, s) for _, s in mine[i]) / E, f"fitness of solution {i} in evaluation {k}")
                    interactions += sum(len(s) for _, s in mine[i])
            n_episodes += n * E
            eq(p.episode_count, n_episodes, "number of episodes counted")
            if not (c["vec"] and c["normalize"]):
                eq(p.interaction_count, interactions, "number of interactions counted")
            eq((p.status["total_interaction_count"], p.status["total_episode_count"]), (p.interaction_count, p.episode_count), "counters in the status")
            if c["normalize"]:
                if c["vec"]:
                    eq(p.get_observation_stats().count, p.interaction_count, "number of observations in the statistics")
                else:
                    s = Stats()
                    s.rows = stats
                    s.check(p.get_observation_stats(), f"after evaluation {k}")
        if c["seed"] % 3 == 0:
            # a copy goes on counting where the original was, although it has its own actors
            counted = (p.interaction_count, p.episode_count)
            had = seen_by(p) if c["normalize"] else 0
            q = pickle.loads(pickle.dumps(p)) if c["seed"] % 2 else p.clone()
            try:
                eq((q.interaction_count, q.episode_count), counted, "counters of the copy")
                n = c["sizes"][0]
                batch = make_batch(q, vectors(c, n, 0))
                q.evaluate(batch)
                require(q.episode_count == counted[1] + n * E and q.interaction_count >= counted[0] + n * E, lambda: f"counters {counted} before, {(q.interaction_count, q.episode_count)} after {n} further solutions with {E} episodes each, evaluated by a copy")
                eq((p.interaction_count, p.episode_count), counted, "counters of the original")
                if c["normalize"]:
                    eq(seen_by(p), had, "observations known to the original")
                    extra = q.interaction_count - counted[0] + (0 if c["vec"] else n * E)
                    eq(seen_by(q), had + extra, "observations known to the copy")
            finally:
                q.kill_actors()
            ctx.label("copied")
    except Risky:
        ctx.label("broken off")
        return
    finally:
        p.kill_actors()
    ctx.hit("vectorized" if c["vec"] else "one by one", "normalized" if c["normalize"] else "plain", "idle actors" if min(c["sizes"]) < c["actors"] else None)


# ---------------------------------------------------------------- action noise


@st.composite
def noise_case(draw):
    return {"stdev": draw(st.sampled_from([0.25, 1.0, 3.0])), "vec": draw(st.booleans()), "seed": draw(seeds), "act": draw(st.integers(1, 2))}


def check_noise(case, ctx):
    del envs.RECORD[:]
    cfg = {"seed": case["seed"], "obs": 2, "act": case["act"], "bounds": "none", "longest": 12}
    cls = VecGymNE if case["vec"] else GymNE
    p = cls(NAME, "Linear(obs_length, act_length)", env_config=cfg, num_episodes=6, action_noise_stdev=case["stdev"])
    layers = [["Linear", [True], 2, case["act"]]]
    values = rand_grid(case["seed"], (12, p.solution_length), -8, 8, 8.0)
    batch = make_batch(p, values)
    before = {id(e): len(e.log) for e in envs.RECORD}
    p.evaluate(batch)
    used = [e for e in envs.RECORD if len(e.log) > before.get(id(e), 0)]
    logs = [episodes(e.log[before.get(id(e), 0) :]) for e in used]
    mine = [l[:6] for l in logs] if case["vec"] else [logs[0][6 * i : 6 * i + 6] for i in range(12)]
    noise = []
    for v, m in zip(values, mine):
        ref = Ref(layers, v)
        for start, steps in m:
            x = torch.from_numpy(start)
            for e in steps:
                noise.append(torch.from_numpy(np.asarray(e[1])).to(F64) - ref.step(x, {})[0])
                x = torch.from_numpy(e[3])
    z = torch.cat(noise) / case["stdev"]
    n = len(z)
    require(abs(float(z.mean())) < 6 / math.sqrt(n), lambda: f"mean of the action noise: {float(z.mean())} standard deviations, in {n} numbers")
    require(abs(float((z**2).mean()) - 1) < 8.5 / math.sqrt(n), lambda: f"variance of the action noise: {float((z ** 2).mean())} times the expected one, in {n} numbers")
    share = float((z.abs() < 0.6745).to(F64).mean())
    require(abs(share - 0.5) < 3.2 / math.sqrt(n), lambda: f"share of the small noise: {share}")
    ctx.hit("vectorized" if case["vec"] else "one by one")


# ---------------------------------------------------------------- vectorized environments by themselves


@st.composite
def sync_case(draw):
    c = {k: v for k, v in draw(env_part(True)).items() if k in ("obs", "act", "discrete", "bounds", "longest", "truncates", "seed")}
    c["n"] = draw(st.integers(1, 3))
    c["rounds"] = draw(st.integers(1, 10))
    c["limit"] = draw(st.sampled_from([None, 1, 2]))
    c["classic"] = draw(st.booleans())
    c["clip"] = draw(st.booleans())
    c["made"] = draw(st.booleans())
    return c


def check_sync(case, ctx):
    c = case
    del envs.RECORD[:]
    n = c["n"]
    options = dict(force_classic_api=c["classic"], discrete_to_continuous_act=True, clip_actions=c["clip"])
    if c["seed"] % 2:
        options = {k: v for k, v in options.items() if v}
    if c["made"]:
        env = make_vector_env(NAME, num_envs=n, **options, **({} if c["limit"] is None else {"num_episodes": c["limit"]}), **env_config(c))
    else:
        env = TorchWrapper(SyncVectorEnv([lambda: Recorder(**env_config(c)) for _ in range(n)], num_episodes=c["limit"]), **options)
    must_raise(lambda: env.step(torch.zeros(n, c["act"])), "a step before resetting", ValueError)
    subs = envs.RECORD[:n]
    eq(len(envs.RECORD), n, "number of sub-environments")
    eq(env.num_envs, n, "number of environments")
    require(env.single_observation_space.shape == (c["obs"],) and env.single_action_space.shape == (c["act"],) and env.action_space.shape == (n, c["act"]), "spaces")
    for turn in range(2):
        marks = [len(s.log) for s in subs]
        out = env.reset()
        obs = out if c["classic"] else out[0]
        same(obs, torch.stack([torch.from_numpy(s.log[m][1]) for s, m in zip(subs, marks)]), "first observations")
        done_count = [0] * n
        ended = False
        for r in range(c["rounds"]):
            actions = rand_grid(c["seed"] + r + 100 * turn, (n, c["act"]), -16, 16, 8.0)
            keep = actions.clone()
            marks = [len(s.log) for s in subs]
            out = env.step(actions)
            same(actions, keep, "the actions of the caller")
            eq(len(out), 4 if c["classic"] else 5, "number of results")
            obs, reward = out[0], out[1]
            done = out[2] if c["classic"] else out[2] | out[3]
            require(all(isinstance(x, torch.Tensor) for x in (obs, reward, done)), "the results are not tensors")
            for i, s in enumerate(subs):
                new = s.log[marks[i] :]
                what = f"sub-environment {i}, step {r}"
                if c["limit"] is not None and done_count[i] >= c["limit"]:
                    require(not any(e[0] == "step" for e in new), f"{what}: a finished environment goes on")
                    require(bool(done[i]), f"{what}: a finished environment is not reported as done")
                    require(bool(torch.isnan(obs[i]).all()) and bool(torch.isnan(reward[i])), f"{what}: a finished environment gives results")
                    ended = True
                    continue
                e = new[0]
                if c["discrete"]:
                    eq(int(e[1]), int(actions[i].argmax()), f"{what}: action")
                else:
                    want = actions[i].clone()
                    if c["clip"]:
                        low, high = (torch.from_numpy(b) for b in bounds_of(c["bounds"], c["act"]))
                        want = torch.minimum(torch.maximum(want, low), high)
                    same(torch.from_numpy(np.asarray(e[1])), want, f"{what}: action")
                near(reward[i], float(e[2]), f"{what}: reward")
                eq(bool(done[i]), e[4], f"{what}: done")
                if e[4]:
                    done_count[i] += 1
                    ended = True
                    require(len(new) > 1, f"{what}: not reset")
                    last = c["limit"] is not None and done_count[i] >= c["limit"]
                    same(obs[i], torch.from_numpy(e[3] if last else new[1][1]), f"{what}: observation at the end of an episode")
                else:
                    eq(len(new), 1, f"{what}: events")
                    same(obs[i], torch.from_numpy(e[3]), f"{what}: observation")
    ctx.hit("limited" if c["limit"] else "unlimited") if ended else ctx.label("no episode ended")


@st.composite
def wrong_case(draw):
    return {"seed": draw(seeds), "k": draw(st.integers(1, 3))}


def check_wrong(case, ctx):
    k = case["k"]
    cfg = {"seed": case["seed"], "act": k}
    must_raise(lambda: VecGymNE(NAME, "Linear(obs_length, act_length)", env_config=cfg, alive_bonus_schedule=(1,)), "a schedule of one item", ValueError)
    must_raise(lambda: GymNE(NAME, None, env_config=cfg), "no network", ValueError)
    must_raise(lambda: GymNE(None, "Linear(2, 2)", env_config=cfg), "no environment", ValueError)
    must_raise(lambda: GymNE(NAME, "Linear(obs_length, act_length)", env_name=NAME, env_config=cfg), "two environments", ValueError)
    named = GymNE(network="Linear(obs_length, act_length)", env_name=NAME, env_config=cfg)
    eq(named.solution_length, GymNE(NAME, "Linear(obs_length, act_length)", env_config=cfg).solution_length, "length of the solutions of a problem whose environment was given as env_name")
    must_raise(lambda: SyncVectorEnv([lambda: Recorder(**cfg), lambda: Recorder(**dict(cfg, act=k + 1))]), "different action shapes", ValueError)
    must_raise(lambda: SyncVectorEnv([lambda: Recorder(**cfg), lambda: Recorder(**dict(cfg, obs=5))]), "different observation shapes", ValueError)
    must_raise(lambda: SyncVectorEnv([lambda: Recorder(**cfg), lambda: Recorder(**dict(cfg, discrete=True))]), "different action spaces", TypeError)
    must_raise(lambda: SyncVectorEnv([]), "no environment", ValueError)
    p = GymNE(NAME, "Linear(obs_length, act_length)", env_config=cfg, observation_normalization=True)
    d = tempfile.mkdtemp(prefix="vpc28")
    try:
        p.save_solution(torch.zeros(p.solution_length), os.path.join(d, "s.pickle"))
    finally:
        shutil.rmtree(d)
    ctx.hit("errors")


FACETS = [
    Facet("one environment", gym_case(), check_gym, quick=220, thorough=5000, rule="followed to the end"),
    Facet("vectorized environments", vec_case(), check_vec, quick=200, thorough=4000, rule="followed to the end"),
    Facet("several actors", actor_case(), check_actors, quick=40, thorough=600, needs_ray=True, rule="followed to the end"),
    Facet("action noise", noise_case(), check_noise, quick=12, thorough=100, rule="any"),
    Facet("sub-environments", sync_case(), check_sync, quick=120, thorough=2500, rule="at least one episode ended"),
    Facet("errors", wrong_case(), check_wrong, quick=6, thorough=20, rule="any"),
]
