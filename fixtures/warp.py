"""A user-defined scale: every latent variable moves every other one, and the Jacobian varies over the latent space."""
import torch
from irtorch.rescale import Scale


class Warp(Scale):
    def __init__(self, matrix, weights):
        super().__init__(invertible=False)
        self.matrix = matrix
        self.weights = weights

    def transform(self, theta):
        return torch.matmul(theta, self.matrix) + self.weights * theta.exp()

    def inverse(self, transformed_theta):
        raise NotImplementedError("not needed")

    def jacobian(self, theta):
        return self.matrix.T.unsqueeze(0) + torch.diag_embed(self.weights * theta.exp())
