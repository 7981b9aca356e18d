CONSTANT Big = 0
