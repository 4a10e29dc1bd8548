import c01
LEVEL = 'exploration'


def run(ctx): c01.explore(ctx, 'C02')
