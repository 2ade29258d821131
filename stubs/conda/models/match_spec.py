"""Stand-in for the third-party package `conda` (not installable in this sandbox), used only so that the real modules of
/repo can be imported and executed by the checks. It implements the part of MatchSpec's documented behaviour that the
repository's code touches: `name`, `original_spec_str`, equality, hashing and InvalidMatchSpec."""
import re


class InvalidMatchSpec(ValueError):
    def __init__(self, invalid_spec="", details=""):
        self.invalid_spec = invalid_spec
        super().__init__(f"Invalid spec {invalid_spec!r}: {details}")


_NAME = re.compile(r"^\s*(?:[\w.\-/]+::)?([A-Za-z0-9_.*\-]+)\s*(.*)$")


class MatchSpec:
    def __init__(self, optional_match_spec_arg=None, **kwargs):
        s = str(optional_match_spec_arg)
        self.original_spec_str = s
        body = s.split("#", 1)[0].strip()
        m = _NAME.match(body)
        if not body or m is None:
            raise InvalidMatchSpec(s, "no package name found")
        self.name = m.group(1).lower()
        rest = m.group(2).strip()
        if rest and rest[0] not in "=<>!~0123456789*[.|,(vV" and not re.match(r"^[\w.*<>=!|,+~\[\]()-]+(\s+\S+)?$", rest):
            raise InvalidMatchSpec(s, "could not parse version")
        self._rest = " ".join(rest.split())

    def __eq__(self, other):
        return isinstance(other, MatchSpec) and (self.name, self._rest) == (other.name, other._rest)

    def __hash__(self):
        return hash((self.name, self._rest))

    def __str__(self):
        return self.original_spec_str

    def __repr__(self):
        return f"MatchSpec({self.original_spec_str!r})"
