"""Symbolic execution of Python code"""
