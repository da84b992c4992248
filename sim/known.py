"""known findings: defects recorded rather than repaired (see known_findings.json)"""
import json
import os
import re

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')


def _load():
    try:
        with open(PATH, encoding='utf-8') as fh:
            return json.load(fh)
    except FileNotFoundError:
        return {'known': [], 'fixed': []}


DATA = _load()


def match(prop, v, m):
    """index of the listed finding this violation is, or None"""
    for i, k in enumerate(DATA['known']):
        if k['property'] == prop and k['class'] == v[1] and re.fullmatch(k['message'], v[2], re.S):
            return i
    return None


def listed(prop):
    return [k['what'] for k in DATA['known'] if k['property'] == prop]
