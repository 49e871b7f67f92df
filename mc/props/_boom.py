class Boom(Exception):
    """What failing user code raises: nothing the code under test could know."""
