"""Recording environments: observations, rewards and episode lengths are drawn in advance; actions and events are recorded."""

import gymnasium as gym
import numpy as np
import torch
from gymnasium.spaces import Box, Discrete

RECORD = []  # instances in the order of their creation


class Recorder(gym.Env):
    """One environment. `log` receives ("reset", observation) and ("step", action, reward, observation, done)"""

    metadata = {"render_modes": ["human"]}

    def __init__(self, *, seed=0, obs=2, act=2, discrete=False, bounds="both", longest=4, truncates=False, int_reward=False, old_api=False, render_mode=None):
        self.observation_space = Box(-100.0, 100.0, (obs,), dtype=np.float32)
        if discrete:
            self.action_space = Discrete(act)
        else:
            low, high = bounds_of(bounds, act)
            self.action_space = Box(low, high, dtype=np.float32)
        self.cfg = (seed, obs, longest, truncates, int_reward, old_api)
        self.number = len(RECORD)
        RECORD.append(self)
        self.log = []
        self.render_mode = render_mode
        self.renders = 0
        self.rng = np.random.RandomState((seed * 7919 + self.number * 104729) % (2**32))

    def render(self):
        self.renders += 1

    def draw(self):
        return (self.rng.randint(-16, 17, self.cfg[1]) / 8.0).astype(np.float32)

    def reset(self, *, seed=None, options=None):
        self.left = int(self.rng.randint(1, self.cfg[2] + 1))
        obs = self.draw()
        self.log.append(("reset", obs.copy()))
        return obs if self.cfg[5] else (obs, {})

    def step(self, action):
        self.left -= 1
        obs = self.draw()
        action = np.array(action)
        reward = float(obs.sum() * 0.5 + np.clip(action.astype("float64"), -50, 50).sum())
        if self.cfg[4]:
            reward = int(reward)
        done = self.left <= 0
        self.log.append(("step", action, reward, obs.copy(), done))
        if self.cfg[5]:
            return obs, reward, done, {}
        t = bool(done and self.cfg[3] and self.rng.randint(2))
        return obs, reward, bool(done and not t), t, {}


def bounds_of(kind, act):
    low, high = np.full(act, -1.0, dtype=np.float32), np.full(act, 0.75, dtype=np.float32)
    if kind == "none":
        low[:], high[:] = -np.inf, np.inf
    elif kind == "low":
        high[:] = np.inf
    elif kind == "mixed":
        low[0] = -np.inf
        high[-1] = np.inf
    elif kind == "different":
        low[0] = -0.25
        high[-1] = 2.0
    return low, high


NAME = "VpRecorder-v0"
if NAME not in gym.registry:
    gym.register(id=NAME, entry_point=Recorder, disable_env_checker=True, order_enforce=False)


class TorchRecorder(gym.vector.VectorEnv):
    """A vectorized environment working on tensors, which goes on forever (resetting a sub-environment when it is done)"""

    def __init__(self, num_envs, **cfg):
        self.subs = [Recorder(**cfg) for _ in range(num_envs)]
        self.num_envs = num_envs
        self.single_observation_space = self.subs[0].observation_space
        self.single_action_space = self.subs[0].action_space
        self.observation_space = gym.vector.utils.batch_space(self.single_observation_space, num_envs)
        self.action_space = gym.vector.utils.batch_space(self.single_action_space, num_envs)

    def reset(self, *, seed=None, options=None):
        return torch.stack([torch.as_tensor(s.reset()[0]) for s in self.subs]), {}

    def step(self, actions):
        obs, rewards, terminated, truncated = [], [], [], []
        for s, a in zip(self.subs, actions):
            o, r, d, t, _ = s.step(a.numpy())
            if d or t:
                o = s.reset()[0]
            obs.append(torch.as_tensor(o))
            rewards.append(float(r))
            terminated.append(d)
            truncated.append(t)
        return torch.stack(obs), torch.tensor(rewards), torch.tensor(terminated), torch.tensor(truncated), {}

    def close_extras(self, **kw):
        pass


def episodes(log):
    """The runs of steps within a log: [(observation before the first step, [step, ...]), ...]"""
    res = []
    start = None
    for e in log:
        if e[0] == "reset":
            start = e[1]
        elif start is not None:
            res.append((start, [e]))
            start = None
        else:
            res[-1][1].append(e)
    return res


def bonus(schedule, t):
    if schedule is None:
        return 0.0
    t0, t1, b = schedule if len(schedule) == 3 else (schedule[0], schedule[0], schedule[1])
    if t >= t1:
        return b
    if t >= t0:
        return b * (t - t0) / (t1 - t0)
    return 0.0
