import docs
LEVEL = 'model_checking'


def run(ctx):
    docs.explore(ctx, 'C04', rule='all viable token prefixes of the reference reader over 6 alphabets, extended by every token of the alphabet; one-token edits of a corpus; every lexeme for every field type')
