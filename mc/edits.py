"""All texts within one or two character edits of given ones."""


def one(text, alphabet):
    """Every text one deletion, substitution, insertion or transposition away, and every prefix and suffix, and the text doubled."""
    out = {text, text + text, text + " " + text, text + ", " + text}
    n = len(text)
    for i in range(n + 1):
        out.add(text[:i])
        out.add(text[i:])
        out.add(text[:i] + text[i + 1:])
        for c in alphabet:
            out.add(text[:i] + c + text[i:])
            out.add(text[:i] + c + text[i + 1:])
        if i + 1 < n:
            out.add(text[:i] + text[i + 1] + text[i] + text[i + 2:])
    return sorted(out)


def few(text, alphabet):
    """Every text one deletion, substitution or insertion away (no prefixes)."""
    out = set()
    for i in range(len(text) + 1):
        out.add(text[:i] + text[i + 1:])
        for c in alphabet:
            out.add(text[:i] + c + text[i:])
            out.add(text[:i] + c + text[i + 1:])
    out.discard(text)
    return sorted(out)
