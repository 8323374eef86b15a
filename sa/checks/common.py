"""Program fragments shared by the checks."""
PROBLEM = """
from evotorch import Problem
prob = Problem({sense}, _fn(), solution_length=5, initial_bounds=(-1.0, 1.0), bounds=(-2.0, 2.0), dtype="float32", seed=1{extra})
"""

# name, class, constructor, multi-objective, object dtype
REAL_OPERATORS = [
    ("mut-gaussian", "GaussianMutation", "GaussianMutation(prob, stdev=_num())", False, False),
    ("mut-gaussian-p", "GaussianMutation", "GaussianMutation(prob, stdev=_num(), mutation_probability=_num())", False, False),
    ("mut-poly", "PolynomialMutation", "PolynomialMutation(prob)", False, False),
    ("mut-poly-full", "PolynomialMutation", "PolynomialMutation(prob, eta=_num(), mutation_probability=_num())", False, False),
    ("cosyne", "CosynePermutation", "CosynePermutation(prob)", False, False),
    ("cosyne-full", "CosynePermutation", "CosynePermutation(prob, permute_all=True)", False, False),
    ("onepoint", "OnePointCrossOver", "OnePointCrossOver(prob, tournament_size=4)", False, False),
    ("onepoint-n", "OnePointCrossOver", "OnePointCrossOver(prob, tournament_size=4, num_children=6)", False, False),
    ("onepoint-multi", "OnePointCrossOver", "OnePointCrossOver(prob, tournament_size=4)", True, False),
    ("twopoint", "TwoPointCrossOver", "TwoPointCrossOver(prob, tournament_size=4)", False, False),
    ("multipoint", "MultiPointCrossOver", "MultiPointCrossOver(prob, tournament_size=4, num_points=3)", False, False),
    ("multipoint-rate", "MultiPointCrossOver", "MultiPointCrossOver(prob, tournament_size=4, num_points=3, cross_over_rate=0.5)", False, False),
    ("sbx", "SimulatedBinaryCrossOver", "SimulatedBinaryCrossOver(prob, tournament_size=4, eta=_num())", False, False),
    ("sbx-multi", "SimulatedBinaryCrossOver", "SimulatedBinaryCrossOver(prob, tournament_size=4, eta=_num(), obj_index=1)", True, False),
]
