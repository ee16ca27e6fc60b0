"""Stand-in for pytorch_lightning (not installed): only what the training scripts of the repository use."""
import sys
import types

import torch
import yaml


class LightningModule(torch.nn.Module):
    def save_hyperparameters(self):
        pass

    @classmethod
    def load_from_checkpoint(cls, checkpoint_path, hparams_file=None, map_location=None, strict=True):
        with open(hparams_file) as f:
            hparams = yaml.full_load(f)
        model = cls(**hparams)
        model.load_state_dict(torch.load(checkpoint_path, map_location=map_location)["state_dict"], strict=strict)
        return model


def install():
    m = types.ModuleType("pytorch_lightning")
    m.LightningModule = LightningModule
    m.LightningDataModule = type("LightningDataModule", (), {})
    sys.modules["pytorch_lightning"] = m
