import importlib

# scenarios of a quick check, chosen so that each takes about a minute
QUICK = {'C01': 10000, 'C02': 12000, 'C03': 10000, 'C04': 14000, 'C05': 7000, 'C06': 10000, 'C08': 9000, 'C09': 20000, 'C11': 6000, 'C12': 6000, 'C13': 5000,
         'C14': 7000, 'C16': 6000, 'C18': 6000, 'C19': 10000, 'C20': 5000, 'C23': 2500, 'C24': 2500, 'C25': 4000, 'C27': 8000}


def all_props():
    d = {}
    for m in ('textprops', 'cmdprops', 'viewprops', 'diffprops', 'anyprops'):
        for c in importlib.import_module(m).PROPS:
            d[c.ID] = c()
            d[c.ID].QUICK = QUICK.get(c.ID, c.QUICK)
    return d
