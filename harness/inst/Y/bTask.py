config.a = 201
