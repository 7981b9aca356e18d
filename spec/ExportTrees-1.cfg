CONSTANT Big = 1
