"""Estimation results a model carries after fitting (what the scoring functions read)."""


class Scores:
    """an algorithm that estimated the latent scores of the training data"""
    def __init__(self, training_theta_scores, train_data=None):
        self.training_theta_scores = training_theta_scores
        self.train_data = train_data


class Marginal:
    """an algorithm that integrated the latent variables out (no scores, a covariance matrix)"""
    def __init__(self, covariance_matrix):
        self.training_theta_scores = None
        self.covariance_matrix = covariance_matrix


class Fixed:
    """an encoder (or any network) whose output is given"""
    def __init__(self, *output):
        self.output = output if len(output) > 1 else output[0]

    def __call__(self, x):
        return self.output

    def train(self, mode=True):
        return self

    def eval(self):
        return self
