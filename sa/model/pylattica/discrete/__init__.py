from .discrete_step_analyzer import DiscreteStepAnalyzer
from .discrete_state_result_analyzer import DiscreteResultAnalyzer
from .phase_set import PhaseSet
