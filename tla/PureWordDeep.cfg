CONSTANT Level = 2
