config.a = 100
config.b = 101
