import docs
LEVEL = 'model_checking'


def run(ctx):
    docs.explore(ctx, 'C06', rule='as C04 in four layouts, and all sequences of operations sharing one Parameters')
