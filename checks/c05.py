import docs
LEVEL = 'model_checking'


def run(ctx):
    docs.explore(ctx, 'C05', rule='all JSON values up to a number of tokens x member names x insertion points; depth ladders; malformed values one token off')
