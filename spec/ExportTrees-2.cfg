CONSTANT Big = 2
