MODULES = ['vec', 'dist', 'geom', 'motion', 'interact', 'integ', 'overlap', 'evac', 'field', 'steer', 'rand', 'quant', 'nodes', 'shapes', 'wiring', 'control', 'classes']
