"""A model whose fit and log-likelihood are cheap functions of exactly the rows they are given (what cross-validation needs of a model)."""


class Evaluate:
    def __init__(self, model):
        self.model = model

    def log_likelihood(self, data, theta_estimation="ML", reduction="sum"):
        return (self.model.state * data).sum() + data.sum()


class Algorithm:
    """an algorithm that remembers how often it was used: a second fit starts from another state"""
    def __init__(self):
        self.fits = 0


class Model:
    def __init__(self):
        self.state = 0.0
        self.evaluate = Evaluate(self)

    def fit(self, train_data, algorithm=None, rate=1.0, **kwargs):
        # fitting continues from the present state, as training a network does
        self.state = self.state + rate * train_data.sum()
        if algorithm is not None:
            algorithm.fits = algorithm.fits + 1
            self.state = self.state + 3 * algorithm.fits
