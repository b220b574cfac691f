"""A user-defined monotone transformation of every variable with the interface of the rational quadratic spline."""
import torch
from torch import nn


class Monotone(nn.Module):
    def __init__(self, variables):
        super().__init__()
        self.rate = nn.Parameter(torch.ones(variables))
        self.shift = nn.Parameter(torch.zeros(variables))

    def forward(self, inputs, inverse=False):
        if inverse:
            x = (torch.log(inputs) - self.shift) / self.rate
            return x, -(torch.log(self.rate) + self.rate * x + self.shift)
        z = self.rate * inputs + self.shift
        return torch.exp(z), torch.log(self.rate) + z
