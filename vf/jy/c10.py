from envs import *  # noqa
