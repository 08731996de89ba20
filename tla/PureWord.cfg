CONSTANT Level = 1
