"""the element classes of the collections under one another's names"""
from neocore.UInt160 import UInt160 as Item
from neocore.UInt256 import UInt256 as UInt160
from neoitems import Item as UInt256
