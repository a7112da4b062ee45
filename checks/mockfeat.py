"""Featurizers used by the harness; their outcome for a file is dictated by
PLAN: {(structured file path, class name, variant): 'ok'|'invalid'|'boom'}."""
import pandas as pd
from beep.features.base import BEEPFeaturizer


PLAN = {}


class _Base(BEEPFeaturizer):
    DEFAULT_HYPERPARAMETERS = {"variant": 0, "other": "x"}
    CODE = 0
    FEATS = 2

    def _plan(self):
        return PLAN.get((self.datapath.paths["structured"], type(self).__name__, self.hyperparameters["variant"]), "ok")

    def validate(self):
        if self._plan() == "invalid":
            return False, "planned to be invalid"
        return True, None

    def create_features(self):
        if self._plan() == "boom":
            raise RuntimeError("planned failure")
        # identifies file (via the summary), featurizer and hyperparameters
        cap = round(self.datapath.structured_summary.discharge_capacity.iloc[0] * 1000)
        base = cap * 1000 + self.CODE * 100 + self.hyperparameters["variant"] * 10
        self.features = pd.DataFrame({"f%d" % k: [float(base + k)] for k in range(1, self.FEATS + 1)})


class MockA(_Base):
    CODE = 1


class MockB(_Base):
    CODE = 2
    FEATS = 1


class MockC(_Base):
    CODE = 3
    FEATS = 3


class NotAFeaturizer:
    pass
