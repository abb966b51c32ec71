// written by props_build.py
