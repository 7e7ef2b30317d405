"""Harnesses for the Python code (see pysym)"""
