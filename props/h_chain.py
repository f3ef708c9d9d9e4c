"""Tailoring chains for the collation harnesses."""


def entry(x, nm):
    return (tuple([x.int("%s%d" % (nm, j), 0) for j in range(3)]),)


def chain(x, nm, names, before, same=None):
    """levels and text of a chain"""
    levels = []
    text = ""
    for i, k in enumerate(names):
        if before and i == 0:
            l = before
        elif same and i:
            l = same
        else:
            l = x.choice("%s%d" % (nm, i), [1, 2, 3, 4])
        x.cover(['primary', 'secondary', 'tertiary', 'identical'][l - 1])
        levels.append(l)
        text += " " + ("<" * l if l < 4 else "=") + " " + k
    return levels, text
