"""Which models (TLC runs on the specification alone) belong to a property."""
import os

# property: [(init, law, (W4, W2) quick, (W4, W2) thorough)]
LAWS = {
    'C01': [('InitTwo', 'LawC01', (2, 3), (3, 4))],
    'C02': [('InitOne', 'LawC02', (5, 8), (7, 11))],
    'C03': [('InitTwo', 'LawC03', (2, 4), (3, 5))],
    'C04': [('InitTwo', 'LawC04', (2, 4), (3, 6))],
    'C05': [('InitTwo', 'LawC05', (2, 4), (3, 5))],
    'C06': [('InitTwo', 'LawC06', (2, 4), (3, 6)), ('InitThree', 'LawC06Three', (1, 2), (2, 3))],
    'C07': [('InitTwo', 'LawC07', (2, 3), (3, 4))],
    'C08': [('InitOne', 'LawC08', (4, 6), (6, 9))],
    'C09': [('InitOne', 'LawC09', (3, 4), (4, 6))],
    'C10': [('InitOne', 'LawC10', (4, 6), (6, 8))],
    'C11': [('InitTwoSame', 'LawC11', (2, 4), (3, 5))],
    'C12': [('InitThree', 'LawC12', (1, 2), (2, 3))],
    'C14': [('InitText', 'LawC14', (1, 1), (1, 1))],
    'C15': [('InitOne', 'LawC15', (4, 7), (6, 9))],
    'C16': [('InitArray', 'LawC16', (4, 6), (5, 8))],
    'C17': [('InitTwoSame', 'LawC17', (1, 3), (2, 4)), ('InitTwoSame', 'LawC17Mono', (2, 1), (3, 1))],
    'C19': [('InitStruct', 'LawC19', (2, 3), (3, 4))],
    'C18': [('InitOne', 'LawC18', (4, 9), (6, 10))],
}


def models(pid, tier, work):
    out = []
    for init, law, q, t in LAWS.get(pid, []):
        w4, w2 = q if tier == 'quick' else t
        cfg = os.path.join(work, law + '.cfg')
        with open(cfg, 'w') as f:
            f.write(f'CONSTANTS W4 = {w4} W2 = {w2}\nINIT {init}\nNEXT Next\nINVARIANT {law}\nCHECK_DEADLOCK FALSE\n')
        out.append({'name': law, 'module': 'Laws.tla', 'config': cfg})
    return out
