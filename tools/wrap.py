"""one-off helper: indent a statement suite under a with-block"""
def wrap(path, start, head, nth=0):
    L = open(path).read().split('\n')
    ks = [k for k, l in enumerate(L) if start in l]
    i = ks[nth]
    ind = len(L[i]) - len(L[i].lstrip())
    j = i
    while j < len(L) and (not L[j].strip() or len(L[j]) - len(L[j].lstrip()) >= ind):
        j += 1
    L[i:j] = [' ' * ind + head] + [('    ' + l if l.strip() else l) for l in L[i:j]]
    open(path, 'w').write('\n'.join(L))
