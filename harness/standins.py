"""Stand-ins for the experiment-tracking packages, with only the names which the loggers use."""

import sys
import types


def install():
    mlflow = types.ModuleType("mlflow")
    mlflow.sent = []
    mlflow.log_metrics = lambda metrics, step=None: mlflow.sent.append((dict(metrics), step))
    mlflow.tracking = types.ModuleType("mlflow.tracking")
    mlflow.tracking.MlflowClient = type("MlflowClient", (), {})
    mlflow.entities = types.ModuleType("mlflow.entities")
    mlflow.entities.Run = type("Run", (), {})
    neptune = types.ModuleType("neptune")
    neptune.Run = type("Run", (), {})
    wandb = types.ModuleType("wandb")
    wandb.log = lambda d: None
    wandb.init = lambda **kw: None
    sacred = types.ModuleType("sacred")
    sacred.Experiment = type("Experiment", (), {})
    sacred.run = types.ModuleType("sacred.run")
    sacred.run.Run = type("Run", (), {})
    for m in (mlflow, mlflow.tracking, mlflow.entities, neptune, wandb, sacred, sacred.run):
        sys.modules[m.__name__] = m
