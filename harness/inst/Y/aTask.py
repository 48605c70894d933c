config.sub.x = 200
