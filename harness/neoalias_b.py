"""the element classes of the collections under one another's names"""
from neocore.UInt256 import UInt256 as Item
from neoitems import Item as UInt160
from neocore.UInt160 import UInt160 as UInt256
