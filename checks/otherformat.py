# -*- coding: utf-8 -*-
"""a second graph bank format, to tell formats apart and to have failed parses"""
import os
import daeso.gb.register
from daeso.gb.graphml import GraphmlParser
from daeso.graph.daesograph import DaesoGraph


class OtherGraph(DaesoGraph):
    def is_failed_parse(self):
        return self.id.startswith(u"fail")


class OtherParser(GraphmlParser):
    def parse_file(self, inf, id2graph, *args, **kwargs):
        GraphmlParser.parse_file(self, inf, id2graph, *args, **kwargs)
        for g in id2graph.values():
            if isinstance(g, DaesoGraph):
                g.__class__ = OtherGraph


daeso.gb.register.other = ("otherformat", "OtherParser")
FORMATS = {"bank2.xml": u"other", "bank  4.xml": u"Other", "b&ank3.xml": u"GraphML"}


def fmt(path):
    """format of a bank, by its file name"""
    return FORMATS.get(os.path.basename(path), u"graphml")
