"""Toolchain of the run modules below mc/ (the catalogue records it); a harness may set VERSIONS."""
VERSIONS = ['mc-1']


def versionlist():
    return list(VERSIONS)
