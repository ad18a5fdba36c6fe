from .growth_controller import GrowthController
