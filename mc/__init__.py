"""Bounded exhaustive exploration (model checking) toolkit for runtimepy."""
