"""Rendering with the shipped report template."""
import os
from mon.load import REPO
from mon.snap import AGE

_env = {}


class Args(dict):
    __getattr__ = dict.get


def template(name="static.jinja2", escape=False):
    t = _env.get((name, escape))
    if t is None:
        from jinja2 import Environment, FileSystemLoader
        e = Environment(loader=FileSystemLoader(os.path.join(REPO, "examples", "render", "tpl")), extensions=["jinja2.ext.loopcontrols"], autoescape=escape)
        e.globals["url_for"] = lambda x: "/" + x
        t = _env[name, escape] = e.get_template(name)
    return t


def render(conf, selection=None, caf="", show=False, name="static.jinja2", escape=False):
    """escape: as a web application would, static.py does not"""
    return template(name, escape).render(aclconfig=conf, selection=selection, caf=caf,
                             args=Args(show_not_selected=show, expand=False, sort=False, time="now"))


def neutral(conf, html):
    return AGE.sub("(# days)", html.replace(str(conf.timestamp), "<time of the import>"))
