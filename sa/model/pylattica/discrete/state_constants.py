VACANT = 'VACANT'
DISCRETE_OCCUPANCY = 'DISCRETE_OCCUPANCY'
