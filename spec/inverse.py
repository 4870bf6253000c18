"""Round trips that have to return their argument."""
import numpy as np

from posydon.interpolation.data_scaling import DataScaler
from posydon.interpolation.IF_interpolation import MatrixScaler, Scaler
from posydon.utils.common_functions import (orbital_period_from_separation,
                                            orbital_separation_from_period)


def there_and_back(x, train, method, lower, upper):
    s = DataScaler()
    s.fit(train, method=method, lower=lower, upper=upper)
    return s.inv_transform(s.transform(x))


def back_and_there(y, train, method, lower, upper):
    s = DataScaler()
    s.fit(train, method=method, lower=lower, upper=upper)
    return s.transform(s.inv_transform(y))


def fit_and_back(x, method, lower, upper):
    s = DataScaler()
    return s.inv_transform(s.fit_and_transform(x, method=method, lower=lower, upper=upper))


def period(p, m1, m2):
    return orbital_period_from_separation(orbital_separation_from_period(p, m1, m2), m1, m2)


def separation(a, m1, m2):
    return orbital_separation_from_period(orbital_period_from_separation(a, m1, m2), m1, m2)


def matrix(norm0, norm1, XT, X):
    s = MatrixScaler([norm0, norm1], XT)
    Y = s.denormalize(s.normalize(X))
    return Y[:, 0], Y[:, 1]


def classes(norm0, norm1, other0, other1, XT, ic, X, klass):
    s = Scaler([{"stable_MT": [norm0, norm1]}, [other0, other1]], XT, ic)
    Y = s.denormalize(s.normalize(X, klass), klass)
    return Y[:, 0], Y[:, 1]


def scale(x, train, method, lower, upper):
    """The scaled value, from the data the scaler was fitted to."""
    if method == "none":
        return x
    if method == "max_abs":
        return x / np.abs(train).max(axis=0)
    if method == "log":
        return np.log10(x)
    if method == "log_max_abs":
        return np.log10(x) / np.abs(np.log10(train)).max(axis=0)
    if method == "min_max":
        low, high = train.min(axis=0), train.max(axis=0)
    elif method == "log_min_max":
        x, low, high = np.log10(x), np.log10(train.min(axis=0)), np.log10(train.max(axis=0))
    elif method == "neg_log_min_max":
        x = np.log10(-x)
        low, high = np.log10((-train).min(axis=0)), np.log10((-train).max(axis=0))
    else:
        if method == "log_standarize":
            x, train = np.log10(x), np.log10(train)
        elif method == "neg_log_standarize":
            x, train = np.log10(-x), np.log10(-train)
        return (x - train.mean(axis=0)) / train.std(axis=0)
    return (x - low) / (high - low) * (upper - lower) + lower


def scaled(x, train, method, lower, upper):
    s = DataScaler()
    s.fit(train, method=method, lower=lower, upper=upper)
    return s.transform(x)


NAMES = {0: "no_RLO", 1: "A", 2: "B", 3: "C", 4: "BA", 5: "BB", 6: "BC", 8: "nonburning",
         9: "undetermined_MT"}


def text(codes):
    """case_A1/B2 ... ; ten is added to the code of star 2."""
    r, first = "", True
    for k in codes:
        if k == 9:
            r += "?"
        elif k == 0:
            r += "no_RLO"
        elif k in NAMES or k - 10 in NAMES:
            r += "case_" if first else "/"
            first = False
            r += NAMES[k] + "1" if k in NAMES else NAMES[k - 10] + "2"
    return r


def condensed(codes):
    """Undetermined first, no overflow only if there is nothing else, no repetitions."""
    r, rest = [], []
    unknown, none = False, False
    for k in codes:
        if k == 9:
            unknown = True
        elif k == 0:
            none = True
        else:
            rest.append(k)
    if unknown:
        r.append(9)
    if none and not rest:
        r.append(0)
    last = None
    for k in rest:
        if k != last:
            r.append(k)
        last = k
    return r


def rescaled_track(o):
    o.rescale()
    return o.X[:, 0], o.minima[0], o.maxima[0]
