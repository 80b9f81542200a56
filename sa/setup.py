"""Builds the fact extractor."""
from . import core

if __name__ == "__main__":
    core.build_tool()
