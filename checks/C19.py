"""parse_to_dict: texts and item lists generated with the dictionary the
specification's literal grammar assigns to them."""

ALPHAS = {1: (4, 5), 2: (4, 5), 3: (4, 5), 4: (5, 6), 5: (5, 6),
          6: (5, 6), 7: (4, 5)}


def check(ctx):
    cases = []
    for a, (q, t) in ALPHAS.items():
        c = ctx.generate('Parse', env=dict(ALPHA=str(a),
                                           MAXLEN=str(ctx.pick(q, t))))
        ctx.detail[f'texts_alphabet_{a}'] = len(c)
        ctx.detail[f'literals_alphabet_{a}'] = sum(x['islit'] for x in c)
        cases += c
    lst = ctx.generate('ParseList',
                       env=dict(MAXITEMS=ctx.pick('2', '3')))
    ctx.detail['item_lists'] = len(lst)
    ctx.replay_cases('parse', lst, per_job=2000)
    ctx.replay_cases('parse', cases, per_job=4000)
    ctx.replay_cases('parse', [{'text': [], 'lit': ['str', []],
                                'splits': []}], extras=True)
